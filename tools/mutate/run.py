#!/usr/bin/env python3
"""Mutation testing of the checks: run.py MUTS.jsonl OUT.jsonl [-j 8] [--frac 24] [--sample N] [--kinds name,field] [--not-kinds ...] [--files substr]

Builds the harness with each mutant laid over /repo's source (nothing in /repo
changes), runs the properties with a fraction of the quick case count, nearest
properties first, until one fails. Survivors are then run against the
existing tests and written down.
"""
import argparse, json, os, random, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HARNESS = '/verif/harness'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOCACHE='/tmp/mutcache', GOMAXPROCS='2')
NEAR = [('pp.go', 'C21 C23 C22 C18'), ('parser.go', 'C04 C03 C27 C01 C02 C05'), ('aim.go', 'C16 C20 C26'), ('speed.go', 'C16 C20'), ('flashlight', 'C16'), ('skill.go', 'C16 C31 C26 C17'),
        ('slider.go', 'C10 C09 C08 C05 C16 C12'), ('lazyslider', 'C16 C20'), ('stackleniency', 'C11 C12'), ('osu/difficulty.go', 'C16 C17 C19 C26 C18'), ('preprocessing', 'C16 C20 C18'),
        ('curves', 'C25 C30 C08 C09 C01'), ('beatmap.go', 'C05 C03 C06 C01'), ('difficulty/difficulty.go', 'C13'), ('mods.go', 'C14 C15 C13'), ('vector', 'C28 C08'), ('timing', 'C07 C10'),
        ('hitobject', 'C12 C05 C06 C11'), ('util.go', 'C05 C01 C27'), ('baseobject', 'C05 C12'), ('mutils', 'C28'), ('pause', 'C29 C27'), ('utf', 'C04 C02'), ('math32', 'C28'), ('spinner', 'C05')]
ALL = ['C%02d' % i for i in range(1, 34)]
PRIM = {'C25', 'C28', 'C30'}


def order(f):
    out = []
    for k, v in NEAR:
        if k in f:
            out = v.split()
            break
    return out + [p for p in ALL if p not in out]


def run(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def one(m, quick, frac, nearonly):
    with tempfile.TemporaryDirectory(prefix='mut-') as d:
        src = open(m['file'], 'rb').read()
        new = src[:m['from']] + m['new'].encode() + src[m['to']:]
        open(d + '/m.go', 'wb').write(new)
        json.dump({'Replace': {m['file']: d + '/m.go'}}, open(d + '/o.json', 'w'))
        rc, out = run(['go', 'build', '-overlay', d + '/o.json', '-o', d + '/props', './cmd/props'], 200, cwd=HARNESS, env=ENV)
        if rc:
            return 'nobuild', ''
        prim = '/math/' in m['file']
        if prim:
            run(['go', 'build', '-overlay', d + '/o.json', '-o', d + '/prim', './cmd/prim'], 200, cwd=HARNESS, env=ENV)
        os.mkdir(d + '/out')
        env = dict(os.environ, TMPDIR=d)
        ps = order(m['file'])
        if nearonly: ps = ps[:8]
        for p in ps:
            if p in PRIM and not prim:
                continue
            rc, out = run([d + ('/prim' if p in PRIM else '/props'), '-prop', p, '-cases', str(max(40, quick[p] // frac)), '-seed', '7', '-out', d + '/out', '-budget', '60s'], 200, env=env, cwd=d)
            if rc:
                return 'killed', p
        rc, out = run(['go', 'test', '-overlay', d + '/o.json', '-vet=off', '-count=1', './...'], 200, cwd='/repo', env=ENV)
        return ('tests' if rc else 'SURVIVED'), ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('muts'); ap.add_argument('out')
    ap.add_argument('-j', type=int, default=8); ap.add_argument('--frac', type=int, default=24); ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--kinds', default=''); ap.add_argument('--not-kinds', default=''); ap.add_argument('--files', default=''); ap.add_argument('--near', action='store_true')
    a = ap.parse_args()
    ms = [json.loads(l) for l in open(a.muts)]
    if a.kinds: ms = [m for m in ms if m['kind'].split()[0] in a.kinds.split(',')]
    if a.not_kinds: ms = [m for m in ms if m['kind'].split()[0] not in a.not_kinds.split(',')]
    if a.files: ms = [m for m in ms if any(f in m['file'] for f in a.files.split(','))]
    seen = set(); u = []
    for m in ms:
        k = (m['file'], m['from'], m['to'], m['new'])
        if k not in seen: seen.add(k); u.append(m)
    ms = u
    random.Random(5).shuffle(ms)
    if a.sample: ms = ms[:a.sample]
    if os.path.exists(a.out):
        done = {(d['file'], d['from'], d['to'], d['new']) for d in map(json.loads, open(a.out))}
        ms = [m for m in ms if (m['file'], m['from'], m['to'], m['new']) not in done]
    quick = {}
    for b in ('props', 'prim'):
        subprocess.run(['go', 'build', '-o', '/tmp/mut-' + b, './cmd/' + b], cwd=HARNESS, env=ENV, check=True)
        for l in subprocess.run(['/tmp/mut-' + b, '-list'], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
            f = l.split()
            if len(f) == 3: quick[f[0]] = int(f[1])
    out = open(a.out, 'a'); n = {}; t = time.time()

    def work(m):
        r, p = one(m, quick, a.frac, a.near)
        m = dict(m, result=r, by=p)
        out.write(json.dumps(m) + '\n'); out.flush()
        n[r] = n.get(r, 0) + 1
        if sum(n.values()) % 100 == 0: print(sum(n.values()), len(ms), n, '%d s' % (time.time() - t), flush=True)
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(work, ms))
    print(n)


if __name__ == '__main__':
    main()
