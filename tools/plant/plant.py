#!/usr/bin/env python3
"""Make planted bugs: plant.py DEFS.py  (DEFS.py defines BUGS: list of dicts
id, prop, edits=[(file, old, new)], needs, breaks, go, race?).
Each is built in a scratch copy of /repo, and kept in /verif/seeded/<id> only if it compiles,
passes the stable tests, its demo exits 0 on the clean copy and non-zero on the changed one."""
import json, os, subprocess, sys, shutil, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = '/verif/seeded'
W = '/tmp/plantwork'
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, capture_output=True, text=True, **k)
def clean():
    shutil.rmtree(W, ignore_errors=True); shutil.copytree('/repo', W, symlinks=True)
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = set(sys.argv[2:])
clean()
res = {}
for b in bugs:
    if only and b['id'] not in only: continue
    sh('git checkout -q -- .', W)
    ok = True; why = ''
    for f, old, new in b['edits']:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) != 1:
            ok = False; why = 'edit matches %d times in %s' % (s.count(old), f); break
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        print(b['id'], 'BAD', why); continue
    diff = sh('git diff', W).stdout
    d = '/tmp/plantdemo/' + b['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    imports = ''.join('\t"%s"\n' % i for i in b.get('imports', []))
    main = b['go'] if b['go'].lstrip().startswith('package') else 'package main\n\nimport (\n%s)\n\nfunc main() {\n%s\n\tfinish()\n}\n' % (imports, b['go'].rstrip())
    open(d + '/main.go', 'w').write(main)
    shutil.copy(HERE + '/lib.go', d)
    open(d + '/demo.sh', 'w').write(open(HERE + '/demo.sh').read().replace('@BUILD@', '-race ' if b.get('race') else ''))
    sh(['gofmt', '-w', d + '/main.go'])
    os.chmod(d + '/demo.sh', 0o755)
    r = sh('go build ./... && go vet ./math/... >/dev/null; go build ./...', W)
    if r.returncode: print(b['id'], 'BAD does not build', r.stderr[:800]); continue
    t = sh('go test -vet=off -count=1 ./...', W)
    if t.returncode: print(b['id'], 'BAD tests fail', [l for l in t.stdout.splitlines() if 'FAIL' in l or 'xpected' in l or 'rong' in l][:6]); continue
    bad = sh(['bash', d + '/demo.sh'], W, timeout=300)
    sh('git checkout -q -- .', W)
    good = sh(['bash', d + '/demo.sh'], W, timeout=300)
    if good.returncode != 0: print(b['id'], 'BAD demo fails on clean tree:', (good.stdout + good.stderr)[:1500]); continue
    if bad.returncode in (0, 3): print(b['id'], 'BAD demo with the patch: rc', bad.returncode, (bad.stdout + bad.stderr)[:800]); continue
    o = os.path.join(SEED, b['id'])
    shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
    open(o + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    open(o + '/meta.json', 'a').write('\n')
    print(b['id'], 'kept', bad.stdout.strip()[:160].replace('\n', ' | '))
shutil.rmtree(W, ignore_errors=True)
shutil.rmtree('/tmp/plantdemo', ignore_errors=True)
