#!/usr/bin/env python3
"""Self-test of the checks: every broken variant of the source has to be
reported by the check of its property, every harmless variant has to pass all
checks it names.  Works on scratch copies.

Usage: run.py [-j N] [-v] [NAME-PREFIX ...]
"""
import argparse
import concurrent.futures
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.environ.get('NODEFINDER_SRC', '/repo')


def load():
    res = []
    for n in sorted(os.listdir(HERE)):
        if n.startswith('v_') and n.endswith('.py'):
            spec = importlib.util.spec_from_file_location(n[:-3], os.path.join(HERE, n))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for v in m.VARIANTS:
                v['file'] = n[:-3]
            res += m.VARIANTS
    return res


def make(edits, root):
    shutil.copytree(os.path.join(SRC, 'nodefinder'), os.path.join(root, 'nodefinder'), ignore=shutil.ignore_patterns('__pycache__'))
    for e in edits:
        path, old, new = e[:3]
        p = os.path.join(root, 'nodefinder', path)
        s = open(p).read()
        if s.count(old) != 1 and not (len(e) > 3 and e[3] == 'all'):
            raise SystemExit('variant text occurs %d times in %s: %r' % (s.count(old), path, old))
        s = s.replace(old, new)
        with open(p, 'w') as fh:
            fh.write(s)
    for e in edits:
        p = os.path.join(root, 'nodefinder', e[0])
        compile(open(p).read(), p, 'exec')


def one(v, pid):
    root = tempfile.mkdtemp(prefix='nfst')
    try:
        try:
            make(v['edits'], root)
        except SystemExit as e:
            return v, pid, 'BAD-VARIANT', str(e), 0
        t = time.time()
        # checks write evidence and reports: use a scratch copy of the checker
        vr = os.path.join(root, 'verif')
        os.makedirs(vr)
        shutil.copytree(os.path.join(VERIF, 'sa'), os.path.join(vr, 'sa'), ignore=shutil.ignore_patterns('__pycache__'))
        for n in ('check.py', 'known_findings.txt'):
            if os.path.exists(os.path.join(VERIF, n)):
                shutil.copy(os.path.join(VERIF, n), vr)
        env = dict(os.environ, NODEFINDER_SRC=root)
        try:
            r = subprocess.run([sys.executable, os.path.join(vr, 'check.py'), pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 99, 'timeout'
        return v, pid, rc, out, time.time() - t
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('names', nargs='*')
    a = ap.parse_args()
    jobs = []
    all_ids = None
    for v in load():
        pids = v['props']
        if pids == 'all':
            if all_ids is None:
                sys.path.insert(0, VERIF)
                from sa import rules
                all_ids = rules.ids()
            pids = all_ids
        for pid in pids:
            label = '%s:%s' % (pid, v['name'])
            if not a.names or any(v['file'] == n or label.startswith(n) or v['name'].startswith(n) for n in a.names):
                jobs.append((v, pid))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        futs = [ex.submit(one, v, pid) for v, pid in jobs]
        for fut in concurrent.futures.as_completed(futs):
            v, pid, rc, out, dt = fut.result()
            want = 1 if v['broken'] else 0
            ok = rc == want
            bad += not ok
            print('%s %s:%s rc=%s (want %s) %.1fs' % ('ok  ' if ok else 'FAIL', pid, v['name'], rc, want, dt))
            if not ok or a.v:
                print('      ' + '\n      '.join(out.strip().splitlines()[-8:]))
            sys.stdout.flush()
    print('%d jobs, %d unexpected' % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
