#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo. Every check has to stay quiet on each of them.

  refactors.py [-c C01,C02] [-j N] [NAME...]

Each is applied to a copy of the repository; it is built, its tests run, and then all checks of the
analyzer run on the copy. Nothing registered in MANIFEST.json uses this: it is a test of the checks."""
import subprocess, sys, os, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
GSV = os.path.join(HERE, '..', 'bin', 'gsv')
R = {}


def r(name, *edits):
    R[name] = edits


for f in sorted(os.listdir(os.path.join(HERE, 'refactors'))):
    if f.endswith('.py'):
        exec(compile(open(os.path.join(HERE, 'refactors', f)).read(), f, 'exec'))
    elif f.endswith('.diff'):
        R[f[:-5]] = os.path.join(HERE, 'refactors', f)

IDS = [l.split()[0].strip(':') for l in subprocess.run([GSV, 'list'], capture_output=True, text=True).stdout.split('\n') if l]


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors='replace')


def one(name, ids, tests=True):
    d = tempfile.mkdtemp(prefix='refac-')
    repo, out = d + '/repo', d + '/out'
    shutil.copytree('/repo', repo, symlinks=True)
    os.makedirs(out)
    for f in ('known_findings.txt',):
        if os.path.exists(HERE + '/../' + f):
            shutil.copy(HERE + '/../' + f, out)
    msgs = []
    try:
        e = R[name]
        if isinstance(e, str):
            p = run(['git', 'apply', e], repo)
            if p.returncode:
                return name, ['does not apply: ' + p.stderr[:200]]
        else:
            for f, old, new in e:
                p = repo + '/' + f
                s = open(p).read() if os.path.exists(p) else ''
                if old not in s:
                    return name, ['not found in %s: %s' % (f, old[:80])]
                open(p, 'w').write(s.replace(old, new, 1) if old else s + new)
        p = run(['go', 'vet', './...'], repo)
        if p.returncode and 'vet:' in p.stderr:
            return name, ['does not compile: ' + p.stderr[:400]]
        p = run(['go', 'build', './...'], repo)
        if p.returncode:
            return name, ['does not compile: ' + p.stderr[:400]]
        if tests:
            p = run(['go', 'test', './data/...', './gcode/...'], repo)
            if p.returncode:
                return name, ['tests fail: ' + p.stdout[-400:]]
        for i in ids:
            p = run([GSV, 'check', i, repo, out], d)
            if p.returncode:
                msgs += ['%s exit %d: %s' % (i, p.returncode, l[:420]) for l in p.stdout.split('\n')[:2] if l] or ['%s exit %d %s' % (i, p.returncode, p.stderr[:300])]
        return name, msgs
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    ids, jobs = IDS, 4
    while a and a[0].startswith('-'):
        if a[0] == '-c':
            ids = a[1].split(',')
        if a[0] == '-j':
            jobs = int(a[1])
        a = a[2:]
    names = [n for n in R if not a or any(n.startswith(x) for x in a)]
    bad = 0
    with ThreadPoolExecutor(jobs) as ex:
        for name, msgs in ex.map(lambda n: one(n, ids), names):
            print(('FAIL ' if msgs else 'ok   ') + name, flush=True)
            bad += bool(msgs)
            for m in msgs:
                print('     ' + m, flush=True)
    print('%d refactorings, %d with alarms' % (len(names), bad))
    sys.exit(bad > 0)


main()
