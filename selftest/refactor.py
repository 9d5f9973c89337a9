#!/usr/bin/env python3
"""Larger refactorings, as a contributor might make them: all checks run on each.

Usage: refactor.py [-j N] [-t] [-c C01,C02] [NAME ...]   (-t: run the stable tests instead)
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.environ.get('NODEFINDER_SRC', '/repo')
sys.path.insert(0, HERE)
from refactorings import ALL  # noqa: E402


def make(name, root):
    shutil.copytree(os.path.join(SRC, 'nodefinder'), os.path.join(root, 'nodefinder'), ignore=shutil.ignore_patterns('__pycache__'))
    for path, old, new in ALL[name]:
        p = os.path.join(root, 'nodefinder', path)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: text occurs %d times in %s: %r' % (name, s.count(old), path, old))
        with open(p, 'w') as fh:
            fh.write(s.replace(old, new))
        compile(open(p).read(), p, 'exec')


def check(name, pid):
    root = tempfile.mkdtemp(prefix='nfref')
    try:
        make(name, root)
        v = os.path.join(root, 'v')
        os.makedirs(v)
        shutil.copytree(os.path.join(VERIF, 'sa'), os.path.join(v, 'sa'), ignore=shutil.ignore_patterns('__pycache__'))
        for n in ('check.py', 'known_findings.txt'):
            shutil.copy(os.path.join(VERIF, n), v)
        r = subprocess.run(['timeout', '300', sys.executable, os.path.join(v, 'check.py'), pid], env=dict(os.environ, NODEFINDER_SRC=root),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        und = 0
        try:
            und = r.stdout.count('UNDECIDED')
        except ValueError:
            pass
        return name, pid, r.returncode, und, r.stdout.strip()
    finally:
        shutil.rmtree(root)


def tests(name):
    root = tempfile.mkdtemp(prefix='nfref')
    try:
        shutil.copytree(SRC, root + '/r', ignore=shutil.ignore_patterns('__pycache__', '.git'))
        shutil.rmtree(root + '/r/nodefinder')
        make(name, root + '/r')
        r = subprocess.run(['timeout', '200', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-plot-compare', 'tests/search', 'tests/identify/test_cluster.py::test_clustering'], cwd=root + '/r', env=dict(os.environ, PYTHONPATH=root + '/r', MPLBACKEND='agg'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, r.stdout.strip().splitlines()[-1]
    finally:
        shutil.rmtree(root)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('-j', type=int, default=8)
    p.add_argument('-t', action='store_true')
    p.add_argument('-c')
    p.add_argument('names', nargs='*')
    a = p.parse_args()
    names = [n for n in ALL if not a.names or any(n.startswith(x) for x in a.names)]
    pids = a.c.split(',') if a.c else [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        if a.t:
            for n, s in ex.map(tests, names):
                print(n, s)
            return
        und = {}
        for n, c, rc, u, out in ex.map(lambda x: check(*x), [(n, c) for n in names for c in pids]):
            if rc:
                bad += 1
                print('UNEXPECTED', n, c, 'exit', rc)
                print('   ' + '\n   '.join(out.splitlines()[:5]))
            if u:
                und.setdefault(n, []).append('%s %d' % (c, u))
        for n in und:
            print('undecided', n, ', '.join(und[n]))
    print('%d refactorings, %d unexpected' % (len(names), bad))
    sys.exit(bool(bad))


main()
