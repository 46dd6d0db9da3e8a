#!/usr/bin/env python3
"""Run each planted bug's check against a scratch copy with the bug in it. try.py [-a] [-r COMMIT] [ids...]; -a: run all checks.
With -r COMMIT PROP: revert that commit instead of applying a patch and print the replay (corpus for fixed defects)."""
import json, os, shutil, subprocess, sys, tempfile
args = sys.argv[1:]
allc = '-a' in args
seed = os.environ.get('VERIF_SEED', '1')
m = json.load(open('/verif/MANIFEST.json'))
checks = {c['property']: c for c in m['checks']}
env = dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick')


def scratch():
    d = tempfile.mkdtemp(prefix='try-')
    os.mkdir(d + '/verif')
    subprocess.run('git -C /repo worktree list >/dev/null; cp -a /repo %s/repo; cp -a /verif/harness /verif/run.py /verif/known-findings.txt %s/verif/; [ -d /verif/corpus ] && cp -a /verif/corpus %s/verif/; sed -i "s#=> /repo#=> %s/repo#" %s/verif/harness/go.mod' % (d, d, d, d, d), shell=True)
    return d


def run(d, p):
    r = subprocess.run(checks[p]['quick_cmd'], shell=True, cwd=d + '/verif', env=env, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v, r.stdout


if '-r' in args:
    k = args.index('-r'); commit, p = args[k + 1], args[k + 2]
    d = scratch()
    try:
        subprocess.run(['git', '-C', d + '/repo', 'revert', '-n', '-X', 'theirs', commit], check=True)
        rc, v, out = run(d, p)
        print(commit, p, rc, v, out[-600:] if rc != 1 else '')
        if v:
            os.makedirs('/verif/corpus/' + p, exist_ok=True)
            shutil.copy(v[0].split('replay=')[1], '/verif/corpus/%s/fixed-%s.json' % (p, commit))
    finally:
        shutil.rmtree(d)
    sys.exit()
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    meta = json.load(open('/verif/seeded/%s/meta.json' % i))
    d = scratch()
    try:
        subprocess.run(['git', '-C', d + '/repo', 'apply', '/verif/seeded/%s/patch.diff' % i], check=True)
        out = []
        for p in (sorted(checks) if allc else [meta['property']]):
            rc, v, _ = run(d, p)
            if rc == 1 and v: out.append(p + ':CAUGHT')
            elif rc or v: out.append(p + ':rc%d?' % rc)
            elif not allc: out.append(p + ':missed')
        print(i, ' '.join(out), flush=True)
    finally:
        shutil.rmtree(d)
