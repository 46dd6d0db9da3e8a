#!/usr/bin/env python3
"""Tries edits without planting them: quick.py FILE.py [-a] [-j N] [ids]. FILE.py appends (id, property, [(file, old, new), ...]) to Q.
Each edit is laid over /repo's source (nothing changes there); the property's check runs with its quick case count
(-a: all properties, nearest first, until one fails)."""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mutate'))
import run as M


def quick_counts():
    out = {}
    for b in ('props', 'prim'):
        exe = '/tmp/quick-' + b
        subprocess.check_call(['go', 'build', '-o', exe, './cmd/' + b], cwd=M.HARNESS, env=M.ENV)
        for l in subprocess.run([exe, '-list'], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
            f = l.split()
            if len(f) >= 2 and f[0].startswith('C'):
                out[f[0]] = int(f[1])
    return out


def one(q, counts, every):
    id, prop, edits = q
    with tempfile.TemporaryDirectory(prefix='quick-') as d:
        rep, files = {}, {}
        for i, (f, old, new) in enumerate(edits):
            p = '/repo/' + f
            s = files.get(p) or open(p).read()
            if s.count(old) < 1:
                return id, 'NO SUCH TEXT in ' + f
            files[p] = s.replace(old, new, 1)
        for i, (p, s) in enumerate(files.items()):
            open('%s/%d.go' % (d, i), 'w').write(s)
            rep[p] = '%s/%d.go' % (d, i)
        json.dump({'Replace': rep}, open(d + '/o.json', 'w'))
        race = ['-race'] if prop == 'C24' else []
        rc, out = M.run(['go', 'build'] + race + ['-overlay', d + '/o.json', '-o', d + '/props', './cmd/props'], 300, cwd=M.HARNESS, env=M.ENV)
        if rc:
            return id, 'NO BUILD ' + out[-600:]
        M.run(['go', 'build', '-overlay', d + '/o.json', '-o', d + '/prim', './cmd/prim'], 300, cwd=M.HARNESS, env=M.ENV)
        rc, out = M.run(['go', 'test', '-overlay', d + '/o.json', '-vet=off', '-count=1', './...'], 200, cwd='/repo', env=M.ENV)
        note = ' (FAILS TESTS)' if rc else ''
        os.mkdir(d + '/out')
        ps = [prop] + ([p for p in M.ALL if p != prop] if every else [])
        for p in ps:
            rc, out = M.run([d + ('/prim' if p in M.PRIM else '/props'), '-prop', p, '-cases', str(counts[p]), '-seed', '7', '-out', d + '/out', '-budget', '200s'], 400, env=dict(os.environ, TMPDIR=d), cwd=d)
            if rc:
                return id, 'caught by ' + p + note
        return id, 'MISSED' + note


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    every = '-a' in sys.argv
    ns = {'Q': []}
    exec(open(args[0]).read(), ns)
    qs = [q for q in ns['Q'] if not args[1:] or q[0] in args[1:]]
    counts = quick_counts()
    with ThreadPoolExecutor(6) as ex:
        for id, r in ex.map(lambda q: one(q, counts, every), qs):
            print(id, r, flush=True)


main()
