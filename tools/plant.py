#!/usr/bin/env python3
"""Plants bugs of tools/plants.py: scratch copy, patch, tests, demonstration; kept under seeded/ when all is confirmed.

plant.py [ID...]           (re)create seeded/ID
plant.py --hunt [ID...]    run the check of the property of each bug on a scratch copy with the bug
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from plants import PLANTS  # noqa: E402

BASE = '5aa4f2a'
DEMO = '''#!/bin/bash
# run in the tree to try, after its build; demo.py is beside this file
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
PRE = '''import io, logging, os, subprocess, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.stderr = open(os.devnull, 'w')
logging.disable(logging.CRITICAL)
from gcodeutils.gcoder import GCode


def write(g):
    out = io.StringIO()
    g.write(out)
    return out.getvalue().split('\\n')[:-1]


def read(text):
    return GCode(text.strip('\\n').split('\\n'))


def build(text):
    g = GCode()
    for l in text.strip('\\n').split('\\n'):
        g.append(l)
    return g


def expect(a, b, what=''):
    if a != b:
        print('expected', b, 'got', a, what)
        sys.exit(1)


def near(a, b, tol=2e-3, what=''):
    if a is None or abs(a - b) > tol:
        print('expected', b, 'got', a, what)
        sys.exit(1)


'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(d):
    c = os.path.join(d, 'repo')
    shutil.copytree('/repo', c, symlinks=True)
    sh('git checkout -q -- .', c)
    return c


def edit(c, p):
    for f, old, new in p['edits']:
        path = os.path.join(c, f)
        s = open(path, encoding='utf8').read()
        if s.count(old) != 1:
            return '%s: %d occurrences of %r' % (f, s.count(old), old)
        open(path, 'w', encoding='utf8').write(s.replace(old, new))


def original(c, p):
    """removed lines must be lines of the original repository"""
    d = sh('git diff -U0', c).stdout
    f = None
    for l in d.split('\n'):
        if l.startswith('--- '):
            f = l[6:]
            base = sh('git show %s:%s' % (BASE, f), '/repo').stdout.split('\n')
        elif l.startswith('-') and l[1:] not in base:
            print('   not an original line: ' + l[1:])
    return d


def plant(pid, p):
    with tempfile.TemporaryDirectory(dir='/tmp') as d:
        c = copy(d)
        r = edit(c, p)
        if r:
            return 'EDIT ' + r
        original(c, p)
        diff = sh('git diff', c).stdout
        out = os.path.join(d, 'out')
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(PRE + p['demo'].lstrip('\n'))
        json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        t = sh('PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider 2>&1 | tail -30', c).stdout
        stable = {n.split('::')[1] for n in json.load(open('/opt/vp/BASELINE.json'))['stable']}
        failed = set(re.findall(r'^(?:FAILED|ERROR) \S+::(\w+)', t, re.M))
        if failed & stable or 'passed' not in t:
            return 'TESTS ' + ' '.join(failed & stable) + t[-300:]
        a = sh('bash %s/demo.sh' % out, '/repo')
        if a.returncode:
            return 'DEMO fails on the unchanged tree: ' + a.stdout[-500:]
        b = sh('bash %s/demo.sh' % out, c)
        if not b.returncode:
            return 'DEMO passes with the bug'
        dst = os.path.join(root, 'seeded', pid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return 'ok  ' + b.stdout.strip()[:100]


def hunt(pid, p):
    with tempfile.TemporaryDirectory(dir='/tmp') as d:
        c = copy(d)
        r = edit(c, p)
        if r:
            return 'EDIT ' + r
        props = [p['property']] + (p.get('also', []) if '--also' in sys.argv else [])
        res = []
        for q in props:
            a = sh('SX_REPO=%s VERIF_SEED=1 VERIF_TIER=quick SX_SCRATCH_OUT=%s python3-vt run.py %s --tier quick' % (c, d, q), root)
            v = [l for l in a.stdout.split('\n') if l.startswith('VIOLATION')]
            res.append('%s rc=%d %s' % (q, a.returncode, 'CAUGHT' if a.returncode == 1 and v else 'MISSED ' + a.stdout[-300:]))
        return '; '.join(res)


args = [a for a in sys.argv[1:] if not a.startswith('-')]
for pid in sorted(PLANTS):
    if args and not any(pid.startswith(a) for a in args):
        continue
    print(pid, (hunt if '--hunt' in sys.argv else plant)(pid, PLANTS[pid]), flush=True)
