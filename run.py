#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness against /repo's working tree, runs the saved cases of
corpus/ID and then generated ones in parallel shards, writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not decide.
"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
SHARDS = 8
PRIM = {"C25", "C28", "C30"}
RACE = {"C24"}
GO_BIN = "/opt/veriftools/go1.27.3/bin"


def go_env():
    env = dict(os.environ)
    if os.path.isdir(GO_BIN):
        env["PATH"] = GO_BIN + ":" + env.get("PATH", "")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1")
    env.pop("GOARCH", None)
    env.pop("GOOS", None)
    if not env.get("HOME"):
        env["HOME"] = "/root"
    # own cache settings only where the usual ones cannot be used
    env.setdefault("GOCACHE", os.path.join(env["HOME"], ".cache", "go-build"))
    try:
        os.makedirs(env["GOCACHE"], exist_ok=True)
        probe = os.path.join(env["GOCACHE"], ".probe%d" % os.getpid())
        open(probe, "w").close()
        os.remove(probe)
    except OSError:
        env["GOCACHE"] = os.path.join(tempfile.gettempdir(), "verif-go-build")
    return env


def build(cmd, out, race=False):
    args = ["go", "build"]
    if race:
        args.append("-race")
    args += ["-o", out, "./cmd/" + cmd]
    r = subprocess.run(args, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("the harness does not build against /repo:\n" + r.stdout[-4000:])
        sys.exit(2)


def mix(z):
    m = (1 << 64) - 1
    z = (z + 0x9E3779B97F4A7C15) & m
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & m
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & m
    return z ^ (z >> 31)


def shard_seed(seed, pid, k):
    s = mix(seed & ((1 << 64) - 1))
    for ch in pid:
        s = mix(s ^ ord(ch))
    return mix(s ^ (k << 32)) or 1


def run_env():
    env = dict(os.environ)
    # the check counts race reports itself and goes on
    env["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 atexit_sleep_ms=0 history_size=5"
    env.pop("GOGC", None)
    env.pop("GODEBUG", None)
    env.pop("GOMAXPROCS", None)
    env.pop("GOMEMLIMIT", None)
    return env


def replay_once(binary, pid, path, tmp, limit=None):
    """Returns (reproduced, text)."""
    args = [binary, "-prop", pid, "-replay", path]
    if limit:
        args += ["-limit", limit]
    env = run_env()
    env["TMPDIR"] = tmp
    try:
        r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    except subprocess.TimeoutExpired:
        return True, "no result after 400 s"
    text = r.stdout.decode("utf-8", "replace")
    if r.returncode == 0:
        return False, text
    if r.returncode == 2 and "cannot decode replay" in text:
        return False, text
    if r.returncode in (3, 4):
        text = ("no result within the time limit" if r.returncode == 3 else "memory runs away") + "\n" + text
    return True, text


def read(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known(pid):
    """Open findings of a property (fixed ones suppress nothing)."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: property=%s " % pid):])
    return out


def save_replay(pid, seed, src=None, case=None, error=""):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "%s-seed%d.json" % (pid, seed))
    if src:
        shutil.copyfile(src, dst)
    else:
        with open(dst, "w") as f:
            json.dump({"property": pid, "error": error, "case": case}, f, indent=1)
    return dst


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, default=0, help="total number of cases instead of the tier's")
    ap.add_argument("--budget", type=int, default=0, help="seconds of generation")
    a = ap.parse_args()
    begin = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    procs = []

    def stop(*_):
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(2)

    signal.signal(signal.SIGTERM, stop)
    try:
        sys.exit(check(a, tmp, begin, procs))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, tmp, begin, procs):
    pid = a.id
    binary = os.path.join(tmp, "check")
    build("prim" if pid in PRIM else "props", binary, race=pid in RACE)
    built = time.time() - begin
    if a.replay:
        bad, text = replay_once(binary, pid, os.path.abspath(a.replay), tmp)
        print(text)
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if bad else 0

    plan = {}
    for line in subprocess.run([binary, "-list"], stdout=subprocess.PIPE, text=True, env=run_env()).stdout.split("\n"):
        f = line.split()
        if len(f) == 3:
            plan[f[0]] = {"quick": int(f[1]), "thorough": int(f[2])}
    if pid not in plan:
        print("no check for", pid)
        return 2
    total = a.cases or plan[pid][a.tier]
    budget = a.budget or (330 if a.tier == "quick" else 780)
    corpus = os.path.join(HERE, "corpus", pid)

    shards, commands = [], []
    for k in range(SHARDS):
        out = os.path.join(tmp, "s%d" % k)
        os.makedirs(out)
        n = total // SHARDS + (1 if k < total % SHARDS else 0)
        args = [binary, "-prop", pid, "-cases", str(n), "-seed", str(shard_seed(a.seed, pid, k)), "-out", out, "-budget", "%ds" % budget]
        if k == 0 and os.path.isdir(corpus):
            args += ["-corpus", corpus]
        log = open(os.path.join(out, "log"), "wb")
        p = subprocess.Popen(args, stdout=log, stderr=subprocess.STDOUT, env=run_env(), cwd=out)
        procs.append(p)
        shards.append((p, out))
        commands.append(args)
    deadline = time.time() + budget + 300
    abnormal = None
    while any(p.poll() is None for p, _ in shards):
        time.sleep(0.05)
        done = [p for p, _ in shards if p.poll() is not None and p.returncode == 1]
        if done:
            # one shard is enough; give the others a moment to finish on their own
            t = time.time() + 3
            while time.time() < t and any(p.poll() is None for p, _ in shards):
                time.sleep(0.05)
            break
        if time.time() > deadline:
            abnormal = "shards still running after %d s" % (budget + 300)
            break
    for p, _ in shards:
        if p.poll() is None:
            p.kill()
            p.wait()
            p.stopped = True

    stats = [read(os.path.join(o, "stats.json")) for _, o in shards]
    fails = [(s, os.path.join(o, "fail.json")) for s, (_, o) in zip(stats, shards) if s and s["failed"]]
    violation, error = None, abnormal
    if fails:
        # the smallest reproduction of those the shards shrank
        s, f = min(fails, key=lambda x: os.path.getsize(x[1]))
        violation = (s["error"], save_replay(pid, a.seed, src=f))
    else:
        for (p, out), s in zip(shards, stats):
            if getattr(p, "stopped", False) or (p.returncode == 0 and s):
                continue
            if s and s.get("error"):
                error = s["error"]
                continue
            # the process died in the middle of a case: run that case alone
            stuck = os.path.join(out, "stuck.json")
            cur = os.path.join(out, "cur.json")
            path = stuck if os.path.exists(stuck) else cur
            case = read(path)
            why = "exit %d" % p.returncode
            if case is None:
                error = "shard died (%s) without leaving a case: %s" % (why, tail(out))
                continue
            tries = 10 if pid in RACE else 1
            for _ in range(tries):
                bad, text = replay_once(binary, pid, path, tmp)
                if bad:
                    break
            if bad:
                msg = "the call does not return normally (%s): %s" % (why, text[:1500])
                violation = (msg, save_replay(pid, a.seed, case=case.get("case", case) if isinstance(case, dict) else case, error=msg))
                break
            # a machine out of breath, perhaps: once more
            k = shards.index((p, out))
            for f in (stuck, cur):
                if os.path.exists(f):
                    os.remove(f)
            with open(os.path.join(out, "log"), "wb") as log:
                again = subprocess.Popen(commands[k], stdout=log, stderr=subprocess.STDOUT, env=run_env(), cwd=out)
                procs.append(again)
                try:
                    again.wait(timeout=max(60, begin + 800 - time.time()))
                except subprocess.TimeoutExpired:
                    again.kill()
                    again.wait()
            stats[k] = s = read(os.path.join(out, "stats.json"))
            if s and s["failed"]:
                violation = (s["error"], save_replay(pid, a.seed, src=os.path.join(out, "fail.json")))
                break
            if again.returncode == 0 and s:
                continue
            error = "shard died (%s), its last case alone passes, and a second run ended with %d: %s" % (why, again.returncode, tail(out))

    ok = [s for s in stats if s]
    hashes, labels, counts, samples = set(), {}, {}, []
    for s in ok:
        hashes.update(s["hashes"] or [])
        for k, v in (s["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (s["counts"] or {}).items():
            counts[k] = counts.get(k, 0) + v
    for i in range(3):
        for s in ok:
            if s["samples"] and i < len(s["samples"]) and len(samples) < 6:
                samples.append(s["samples"][i])
    cov = {
        "evaluations": sum(s["cases"] for s in ok),
        "distinct_nontrivial": len(hashes),
        "rule": ok[0]["rule"] if ok else "",
        "samples": samples,
        "labels": dict(sorted(labels.items())),
        "comparisons": sum(s["compared"] for s in ok),
        "saved_cases_replayed": sum(s["saved"] for s in ok),
        "shards": SHARDS,
        "cut_short_by_budget": any(s["cut_short"] for s in ok),
        "build_s": round(built, 1),
    }
    if counts:
        cov["totals"] = counts
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
        "assumptions": ["the oracle models in harness/ref state osu!'s rules correctly", "cases outside the generators' reach are not covered"],
        "wall_s": round(time.time() - begin, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)

    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violation:
        print(violation[0])
        print("VIOLATION property=%s replay=%s" % (pid, violation[1]))
        return 1
    if error:
        print("the check could not decide:", error)
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %d comparisons, %.1f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], cov["comparisons"], ev["wall_s"]))
    return 0


def tail(out):
    try:
        with open(os.path.join(out, "log"), "rb") as f:
            return f.read()[-1500:].decode("utf-8", "replace")
    except OSError:
        return ""


if __name__ == "__main__":
    main()
