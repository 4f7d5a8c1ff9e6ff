#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    check.py ID              run it (tier and seed from VERIF_TIER, VERIF_SEED)
    check.py ID --thorough   the same with VERIF_TIER=thorough
    check.py ID --replay F   re-run only the failing case saved in F

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Anything else: the check itself could not run.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def go_env():
    env = dict(os.environ)
    for k in ("GOFLAGS", "GOWORK", "GO111MODULE", "GOENV"):
        env.pop(k, None)
    env.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local",
               GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", CGO_ENABLED="0")
    env.setdefault("HOME", "/root")
    return env


def build(pkg, out, env, race=False):
    if race:
        env = dict(env, CGO_ENABLED="1")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", out] +
                       (["-race"] if race else []) + ["./" + pkg],
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-6000:])
        die("build of the harness against /repo failed")


def setup():
    """Compiles everything once, so that the checks find a warm build cache."""
    env = go_env()
    d = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pid, c in json.load(open(os.path.join(HARNESS, "checks.json"))).items():
            build(pid.lower(), os.path.join(d, "check.test"), env, c.get("race"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print("setup done")


def start_shard(binary, scratch, shard, tier, env, limit, extra):
    d = os.path.join(scratch, "shard%d" % shard)
    os.makedirs(d)
    e = dict(env, VK_SCRATCH=d, VK_SHARD=str(shard), VERIF_TIER=tier,
             VK_MAIN=os.path.join(scratch, "gotetra-main"),
             VK_SCRIPT=os.path.join(scratch, "script"),
             VK_VERIF=VERIF, VK_REPO=REPO, TMPDIR=d,
             GORACE="halt_on_error=1 exitcode=66")
    log = open(os.path.join(d, "log"), "wb")
    p = subprocess.Popen([binary, "-test.timeout=%ds" % limit] + extra,
                         cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    return d, p, log


def tail(path, n=4000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - n))
        return f.read().decode("utf-8", "replace")


def head_of_crash(log):
    s = open(log, "rb").read().decode("utf-8", "replace")
    m = re.search(r"^(panic: |fatal error: |SIG[A-Z]+: |WARNING: DATA RACE)", s, re.M)
    return s[m.start():m.start() + 3000] if m else s[-2000:]


def read_lines(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def save_replay(pid, viol, tier, seed):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = dict(viol, property=pid, tier=tier, verif_seed=seed)
    s = json.dumps(body, indent=1, sort_keys=True)
    name = "%s-%s.json" % (pid, hashlib.sha1(s.encode()).hexdigest()[:10])
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as f:
        f.write(s + "\n")
    return path


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    if args[0] == "--setup":
        setup()
        return
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed_i = int(seed)
    except ValueError:
        seed_i, seed = 1, "1"
    checks = json.load(open(os.path.join(HARNESS, "checks.json")))
    if pid not in checks:
        die("unknown property " + pid)
    conf = checks[pid]
    pkg = pid.lower()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    env = go_env()
    env["VERIF_SEED"] = seed

    procs = []
    try:
        binary = os.path.join(scratch, "check.test")
        build(pkg, binary, env, conf.get("race"))
        if conf.get("main"):
            r = subprocess.run(
                ["go", "build", "-o", os.path.join(scratch, "gotetra-main"),
                 "github.com/phil-mansfield/gotetra/render/main"],
                cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-6000:])
                die("build of render/main failed")

        if conf.get("script"):
            r = subprocess.run(
                ["go", "build", "-o", os.path.join(scratch, "script"),
                 os.path.join(REPO, conf["script"])],
                cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-6000:])
                die("build of %s failed" % conf["script"])

        extra = []
        if "--replay" in args:
            rep = json.load(open(args[args.index("--replay") + 1]))
            tier = rep.get("tier", tier)
            env["VERIF_SEED"] = seed = str(rep.get("verif_seed", seed))
            extra = ["-test.run=^%s$" % rep["test"]]
            if rep.get("failfile"):
                ff = os.path.join(scratch, "replay.fail")
                open(ff, "w").write(rep["failfile"])
                extra += ["-rapid.failfile=" + ff]
            print("replaying: " + rep.get("case", ""))

        scale = conf.get("scale", {}).get(tier)
        if scale and not extra:
            env.setdefault("VK_SCALE", str(scale))
        limit = conf.get("limit", {}).get(tier, 780 if tier == "quick" else 5400)
        shards = 1 if extra else conf.get("shards", {}).get(
            tier, 4 if tier == "quick" else 6)
        for i in range(shards):
            procs.append(start_shard(binary, scratch, i, tier, env, limit, extra))

        viols, stats, known, errors = [], {}, [], []
        for d, p, log in procs:
            try:
                rc = p.wait(timeout=max(1, limit + 30 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
                errors.append("time limit reached")
            log.close()
            logp = os.path.join(d, "log")
            for s in read_lines(os.path.join(d, "stats.jsonl")):
                stats.setdefault(s["test"], []).append(s)
            v = read_lines(os.path.join(d, "violations.jsonl"))
            kp = os.path.join(d, "known.txt")
            if os.path.exists(kp):
                for k in open(kp).read().splitlines():
                    if k not in known:
                        known.append(k)
            for x in v:
                x["log"] = tail(logp, 6000)
            viols += v
            if rc == 0 or v:
                continue
            text = open(logp, "rb").read().decode("utf-8", "replace")
            cur = os.path.join(d, "current")
            if rc == 3 or "HARNESS-ERROR" in text:
                errors.append("harness error:\n" + tail(logp))
            elif "panic: test timed out" in text:
                errors.append("test timed out:\n" + head_of_crash(logp))
            elif rc < 0 or "out of memory" in text or "cannot allocate memory" in text \
                    or "resource temporarily unavailable" in text:
                errors.append("worker died (status %d):\n%s" % (rc, tail(logp)))
            elif os.path.exists(cur):
                # The code under test ended the process (a panic in one of its
                # goroutines, a runtime fault, or log.Fatal) on this case.
                c = open(cur).read().split("\n", 1)
                viols.append({"test": c[0], "case": c[1] if len(c) > 1 else "",
                              "message": "the process died: " + head_of_crash(logp),
                              "failfile": "", "log": tail(logp, 6000)})
            else:
                errors.append("exit status %d:\n%s" % (rc, tail(logp)))

        if extra:
            for v in viols:
                print("REPRODUCED: %s\n%s\n%s" % (v["test"], v["case"], v["message"]))
            for e in errors:
                print(e)
            sys.exit(1 if viols else (2 if errors else 0))

        ev, nontriv, samples, per = 0, set(), [], {}
        for name in sorted(stats):
            a = {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "seeds": []}
            hs = set()
            for s in stats[name]:
                a["evaluations"] += s["evaluations"]
                a["seeds"].append(s["seed"])
                hs.update(s["hashes"] or [])
                for k, n in (s["classes"] or {}).items():
                    a["classes"][k] = a["classes"].get(k, 0) + n
            a["distinct_nontrivial"] = len(hs)
            a["slowest_case_s"] = round(max(s.get("slowest_case_s", 0)
                                            for s in stats[name]), 3)
            a["classes"] = dict(sorted(a["classes"].items()))
            ev += a["evaluations"]
            nontriv.update((name, h) for h in hs)
            per[name] = a
            for s in (stats[name][0]["samples"] or [])[:3]:
                samples.append(name + ": " + s[:700])
        evidence = {
            "property": pid, "tier": tier, "seed": seed_i, "level": conf.get("level", "exploration"),
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(nontriv),
                "rule": conf["rule"], "samples": samples[:12], "per_check": per,
                "shards": shards,
            },
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - t0, 3),
            "violations": len(viols),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

        for k in known:
            print(k)
        if viols:
            seen = set()
            for v in viols:
                if v["test"] in seen:
                    continue
                seen.add(v["test"])
                path = save_replay(pid, v, tier, seed_i)
                print("%s failed: %s" % (v["test"], v["message"][:1500]))
                print("  case: %s" % v["case"][:1500])
                print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.stdout.flush()
            sys.exit(1)
        if errors:
            for e in errors:
                print(e)
            die("no verdict")
        print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" % (
            pid, tier, ev, len(nontriv), time.time() - t0))
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
