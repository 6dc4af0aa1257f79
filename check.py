#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--facet NAME] [--cases N]

Builds the harness against /repo's working tree, explores the property's facets in
parallel shards, maps the outcome to the exit status and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict.
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = "github.com/zyxar/socketio"
RACE = {"C18"}
LIMIT_S = {"quick": 600, "thorough": 7000}
BUDGET_S = {"quick": 150, "thorough": 3600}


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off", GOFLAGS="-mod=readonly",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def die(msg, code=2):
    print("ERROR:", msg)
    sys.stdout.flush()
    sys.exit(code)


def build(out, race):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        cmd[2:2] = ["-modfile", modfile(out)]
    cmd.append("./props")
    r = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("build failed:\n" + r.stdout[-6000:])


def modfile(out):
    d = os.path.dirname(out)
    m = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    p = os.path.join(d, "go.mod")
    open(p, "w").write(m)
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(d, "go.sum"))
    return p


def seed_for(seed, prop, shard):
    h = hashlib.sha256(f"{seed}/{prop}/{shard}".encode()).digest()
    return int.from_bytes(h[:7], "big") | 1


def load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def crash(out, race):
    """A crash report whose failing goroutine runs library code: returns its text."""
    if race and "WARNING: DATA RACE" in out:
        i = out.index("WARNING: DATA RACE")
        rep = out[i:i + 9000]
        j = rep.find("==================")
        rep = rep[:j] if j > 0 else rep
        return rep if LIB in rep else None
    m = re.search(r"^(panic: .*|fatal error: .*)$", out, re.M)
    if not m:
        return None
    rep = out[m.start():]
    # the goroutine that crashed comes first
    g = re.search(r"^goroutine \d+ .*:\n(?:.+\n)*", rep, re.M)
    body = g.group(0) if g else ""
    k = body.rfind("panic(")
    for line in body[max(k, 0):].split("\n"):
        if line.startswith("\t") or not line.strip() or line.startswith("goroutine"):
            continue
        if line.startswith(LIB):
            return rep[:9000]
        if line.startswith("socketioverif/"):
            return None
    if m.group(1).startswith("fatal error: concurrent map") and LIB in rep:
        return rep[:9000]
    return rep[:9000] if LIB in body else None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet", default="")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--repeat", type=int, default=20)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier if a.tier in LIMIT_S else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    race = prop in RACE
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        code = run(a, prop, tier, seed, race, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(a, prop, tier, seed, race, work, t0):
    binary = os.path.join(work, "props.test")
    build(binary, race)
    t1 = time.time()
    env = goenv()
    env.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_FACET=a.facet, VERIF_CASES=str(a.cases),
               GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66 history_size=2")
    if a.replay:
        env.update(VERIF_REPLAY=os.path.abspath(a.replay), VERIF_OUT=work, VERIF_REPEAT=str(a.repeat))
        r = subprocess.run([binary, "-test.run=^TestProp$", "-test.timeout=0"], cwd=work, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(r.stdout[-12000:])
        if re.search(r"violation reproduced|^hung: ", r.stdout, re.M) or (r.returncode and crash(r.stdout, race)):
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if r.returncode == 0 else 2
    shards = a.shards or min(8, os.cpu_count() or 1)
    env["VERIF_SHARDS"] = str(shards)
    env["VERIF_BUDGET_S"] = str(BUDGET_S[tier])
    procs = []
    for i in range(shards):
        d = os.path.join(work, f"s{i}")
        os.mkdir(d)
        e = dict(env, VERIF_OUT=d, GOMAXPROCS=str([4, 2, 8, 1, 4, 2, 8, 3][i % 8]))
        log = open(os.path.join(d, "out"), "wb")
        cmd = [binary, "-test.run=^TestProp$", "-test.timeout=0", "-rapid.nofailfile",
               "-rapid.shrinktime=20s", f"-rapid.seed={seed_for(seed, prop, i)}"]
        procs.append((subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                       preexec_fn=limits(race)), d))
    end = time.time() + LIMIT_S[tier]
    timed_out = False
    grace = None
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.05)
        now = time.time()
        if grace is None and any(p.poll() not in (None, 0) for p, _ in procs):
            grace = now + 45  # another shard has failed: let shrinking finish, then stop
        if grace is None and any(os.path.exists(os.path.join(d, "violation.json")) for _, d in procs):
            grace = now + 100  # cases that fail by not ending shrink slowly
        if now > end or (grace and now > grace):
            timed_out = now > end
            for p, _ in procs:
                if p.poll() is None:
                    p.kill()
            break
    for p, _ in procs:
        p.wait()

    best, errors, stats = None, [], []
    for p, d in procs:
        with open(os.path.join(d, "out"), errors="replace") as f:
            out = f.read()
        stats += load(os.path.join(d, "stats.json")) or []
        v = load(os.path.join(d, "violation.json"))
        if v is None and p.returncode not in (0, -signal.SIGKILL):
            rep = crash(out, race)
            v = load(os.path.join(d, "journal.json")) if rep else None
            if v is not None:
                v["messages"] = [rep]
            elif rep:
                v = {"property": prop, "facet": "?", "plan": None, "messages": [rep]}
        if v is not None:
            v["seed"] = seed
            if best is None or len(json.dumps(v["plan"])) < len(json.dumps(best["plan"])):
                best = v
        elif p.returncode == -signal.SIGKILL:
            if timed_out or grace is None:
                errors.append(f"{os.path.basename(d)}: killed\n{out[-3000:]}")
        elif p.returncode != 0:
            errors.append(f"{os.path.basename(d)}: exit {p.returncode}\n{out[-6000:]}")

    known = load(os.path.join(VERIF, "known_findings.json")) or []
    evidence(prop, tier, seed, stats, 1 if best else 0, time.time() - t0)
    if best:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        tag = hashlib.sha256(json.dumps(best["plan"]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{prop}-{best['facet']}-{tag}.json")
        with open(path, "w") as f:
            json.dump(best, f, indent=1)
        print(f"facet {best['facet']}:")
        for m in best.get("messages") or []:
            print("  " + m[:3000].replace("\n", "\n  "))
        print("plan:", json.dumps(best["plan"])[:3000])
        for e in errors:
            print("note:", e[:500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or timed_out:
        for e in errors:
            print(e)
        print("ERROR: no verdict for", prop, "(time limit)" if timed_out else "")
        return 2
    for k in known:
        if isinstance(k, dict) and k.get("property") == prop and k.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    n = sum(s["evaluations"] for s in stats)
    nt = len({h for s in stats for h in s["hashes"]})
    sk = sum(s["skipped_for_time"] for s in stats)
    print(f"{prop}: held on {n} cases ({nt} distinct non-trivial{', %d skipped for time' % sk if sk else ''}) "
          f"in {time.time() - t1:.1f} s (build {t1 - t0:.1f} s)")
    for name in sorted({s["facet"] for s in stats}):
        ss = [s for s in stats if s["facet"] == name]
        lab = {}
        for s in ss:
            for k, v in s["labels"].items():
                lab[k] = lab.get(k, 0) + v
        print(f"  {name}: {sum(s['evaluations'] for s in ss)} cases, "
              f"{len({h for s in ss for h in s['hashes']})} non-trivial, "
              f"{max(s['wall_s'] for s in ss):.1f} s; "
              + ", ".join(f"{k}={v}" for k, v in sorted(lab.items())))
    return 0


def limits(race):
    def f():
        os.setpgid(0, 0) if False else None
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    return f


def evidence(prop, tier, seed, stats, violations, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    names = []
    for s in stats:
        if s["facet"] not in names:
            names.append(s["facet"])
    facets, samples = {}, []
    for n in names:
        ss = [s for s in stats if s["facet"] == n]
        lab = {}
        for s in ss:
            for k, v in s["labels"].items():
                lab[k] = lab.get(k, 0) + v
        facets[n] = {"evaluations": sum(s["evaluations"] for s in ss),
                     "distinct_nontrivial": len({h for s in ss for h in s["hashes"]}),
                     "rule": ss[0]["rule"], "classes": lab,
                     "skipped_for_time": sum(s["skipped_for_time"] for s in ss)}
        for s in ss:
            if s["samples"]:
                samples.append({"facet": n, "plan": s["samples"][0]})
                break
    cov = {"evaluations": sum(f["evaluations"] for f in facets.values()),
           "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facets.values()),
           "rule": " | ".join(f"{n}: {f['rule']}" for n, f in facets.items()),
           "samples": samples, "facets": facets}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["generated cases only; the reference codecs and models in harness/ are trusted",
                          "the in-memory network and HTTP driver stand in for net/http and TCP, except in facets named tcp"],
          "wall_s": round(wall, 3), "violations": violations}
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


main()
