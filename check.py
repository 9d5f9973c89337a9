#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--tier quick|thorough]   (or: check.py all)

Decides a property of /repo by static analysis of its current source.
Exit status: 0 no violation, 1 violation, 2 the analysis could not be done.
"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.ctx import Ctx
from sa.loader import AnalysisError
from sa import rules


def known_findings(pid):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                d = json.loads(line[len('known: '):])
                if d['property'] == pid:
                    res.append(d)
    return res


def run(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    try:
        ctx = Ctx(pid, tier, seed=seed)
        rules.get(pid)(ctx)
        if not ctx.obligations:
            raise AnalysisError('no instance of any rule was found')
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except RecursionError:
        print('ANALYSIS-BROKEN property=%s recursion limit' % pid)
        return 2
    return ctx.finish(known=known_findings(pid))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.property == 'all':
        worst = 0
        for pid in rules.ids():
            try:
                worst = max(worst, run(pid, a.tier))
            except Exception:
                traceback.print_exc()
                worst = 2
        return worst
    return run(a.property, a.tier)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    def go():
        try:
            res.append(main())
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            traceback.print_exc()
            res.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
