#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property by deterministic simulation.

Builds what it needs from /repo's working tree into /verif/build (ignored by git), runs the seeded
search on all cores, gates and replays any violation in a fresh process, writes the evidence file.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import fcntl, hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NXAS_REPO", "/repo")
SIM = VERIF + "/sim"
sys.path.insert(0, VERIF + "/bin")
import config  # noqa: E402

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root",
       "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}


class CheckError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise CheckError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    names = []
    for top in ("src", "include", "tests", "CMakeLists.txt", "cmake", "externals"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            names.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            names += [os.path.join(d, f) for f in sorted(fs)]
    for d in (SIM,):
        names += [os.path.join(d, f) for f in sorted(os.listdir(d))]
    names.append(VERIF + "/bin/config.py")
    for n in names:
        h.update(n.encode() + b"\0")
        with open(n, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build(targets):
    root = VERIF + "/build"
    os.makedirs(root, exist_ok=True)
    lock = open(root + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = tree_hash()
        for d in os.listdir(root):
            if d not in (key, ".lock"):
                p = root + "/" + d
                # other trees' builds are never reused
                if time.time() - os.path.getmtime(p) > 0:
                    shutil.rmtree(p, ignore_errors=True)
        b = root + "/" + key
        os.makedirs(b, exist_ok=True)
        for t in targets:
            stamp = b + "/." + t + ".done"
            if os.path.exists(stamp):
                continue
            config.BUILD[t](run, b, REPO, SIM)
            open(stamp, "w").close()
        return b
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def known_findings(prop):
    out = []
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                kv = dict(x.split("=", 1) for x in l.split(" | ")[0].split()[1:])
                out.append((kv, l))
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in config.CHECKS:
        print("usage: check.py PROPERTY [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = config.CHECKS[prop]
    targets = []
    for st in cfg["stages"]:
        for t in config.SIMS[st["sim"]]["build"]:
            if t not in targets:
                targets.append(t)
    b = build(targets)
    print("property=%s tier=%s seed=%d built in %.1f s" % (prop, tier, seed, time.time() - t0), flush=True)
    workers = config.WORKERS
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = "%s/nxas-sim-%d" % (shm, os.getpid())
    os.mkdir(scratch)
    rdir = VERIF + "/replays"
    os.makedirs(rdir, exist_ok=True)
    stages = []
    viol = None
    err = None
    try:
        for st in cfg["stages"]:
            s = config.SIMS[st["sim"]]
            if s.get("optional") and not os.path.exists(b + "/" + s["bin"]):
                print("stage %s left out: the code does not build that way" % st["sim"], flush=True)
                continue
            res = search(st, tier, seed, b, scratch, rdir, workers, prop)
            stages.append(res)
            if res["violation"]:
                viol = res["violation"]
                break
            if res["error"]:
                err = res["error"]
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    evidence(prop, tier, seed, cfg, stages, viol, time.time() - t0)
    if viol:
        print("%s: %s" % (viol["class"], viol["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["file"]))
        return 1
    if err:
        print("check error: " + err)
        return 2
    for kv, l in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" | ", 1)[-1]))
    tot = sum(s["runs"] for s in stages)
    print("held: %d runs, %d distinct, %.1f s" % (tot, sum(s["distinct"] for s in stages), time.time() - t0))
    return 0


def sim_cmd(st, b, extra):
    s = config.SIMS[st["sim"]]
    return s.get("prefix", []) + [b + "/" + s["bin"]] + [a.format(b=b, sim=SIM) for a in s["args"]] + \
        ["corpus=" + VERIF + "/corpus", "sim=" + st["sim"], "profile=" + st["profile"]] + extra


def search(st, tier, seed, b, scratch, rdir, workers, prop):
    t0 = time.time()
    runs = st["runs"][tier]
    secs = st["seconds"][tier]
    procs = []
    for w in range(workers):
        out = "%s/out-%s-%s-%d.json" % (scratch, st["sim"], st["profile"], w)
        cmd = sim_cmd(st, b, ["mode=search", "seed=%d" % (seed + st.get("shift", 0)), "worker=%d" % w, "workers=%d" % workers,
                              "runs=%d" % runs, "seconds=%d" % secs, "out=" + out, "replay-dir=" + rdir,
                              "scratch=%s/s%d" % (scratch, w)])
        log = open(out + ".log", "w")
        procs.append((subprocess.Popen(cmd, env=ENV, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                       start_new_session=True), out))
    deadline = t0 + secs + 90
    found_at = None
    while True:
        alive = [p for p, _ in procs if p.poll() is None]
        if not alive:
            break
        if found_at is None and any(p.poll() == 1 for p, _ in procs):
            found_at = time.time()
        now = time.time()
        if now > deadline or (found_at and now > found_at + 20):
            for p in alive:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            break
        time.sleep(0.05)
    res = {"sim": st["sim"], "profile": st["profile"], "runs": 0, "nontrivial": 0, "steps": 0, "switches": 0,
           "fired": {}, "probe": {}, "samples": [], "violation": None, "error": None, "time_limited": 0}
    hashes = set()
    cands = []
    for p, out in procs:
        if not os.path.exists(out):
            if found_at is None:
                tail = open(out + ".log", errors="replace").read()[-1500:]
                res["error"] = "worker ended with %s: %s" % (p.returncode, tail)
            continue
        j = json.load(open(out))
        for k in ("runs", "nontrivial", "steps", "switches"):
            res[k] += j[k]
        for k in ("fired", "probe"):
            for n, v in j[k].items():
                res[k][n] = res[k].get(n, 0) + v
        res["samples"] += j["samples"]
        if j["status"] == "time":
            res["time_limited"] += 1
        if j["status"] == "violation":
            cands.append(j)
        elif j["flaky"]:
            res["error"] = "a run did not repeat exactly: run %d %s" % (j["vrun"], j["vtext"])
        with open(out + ".hashes", "rb") as f:
            d = f.read()
        hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
    res["distinct"] = len(hashes)
    cands.sort(key=lambda j: j["vrun"])
    for j in cands:
        # fresh-process replay must reproduce the violation and its event log exactly
        cmd = sim_cmd(st, b, ["mode=replay", "file=" + j["vfile"], "scratch=" + scratch + "/replay"])
        try:
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            res["error"] = "replay of %s did not end" % j["vfile"]
            continue
        want = [l.split()[1] for l in open(j["vfile"], errors="replace") if l.startswith("hash ")]
        got = [l.split()[1] for l in p.stdout.splitlines() if l.startswith("hash ")]
        same = want and got and int(want[-1], 16) == int(got[-1], 16)
        # a violation found although the code draws on something outside the simulation: same verdict
        loose = any(l.strip() == "loose" for l in open(j["vfile"], errors="replace"))
        if p.returncode == 1 and (same or loose):
            res["violation"] = {"class": j["vclass"], "text": j["vtext"], "file": j["vfile"], "run": j["vrun"]}
            res["error"] = None
            break
        res["error"] = "replay of %s gave %d, hash %s against %s" % (j["vfile"], p.returncode, got, want)
    res["wall"] = time.time() - t0
    return res


def evidence(prop, tier, seed, cfg, stages, viol, wall):
    tot = lambda k: sum(s[k] for s in stages)
    search_wall = sum(s["wall"] for s in stages) or 1e-9
    fired, probe = {}, {}
    for s in stages:
        for n, v in s["fired"].items():
            fired[n] = fired.get(n, 0) + v
        for n, v in s["probe"].items():
            probe[n] = probe.get(n, 0) + v
    samples = [x for s in stages for x in s["samples"]][:4]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct"),
            "rule": cfg["rule"],
            "samples": samples or ["no run was non-trivial"],
            "runs_per_hour": int(tot("runs") / search_wall * 3600),
            "seeds_per_hour": int(tot("runs") / search_wall * 3600),
            "nontrivial_runs": tot("nontrivial"),
            "simulated_steps": tot("steps"),
            "simulated_time": cfg.get("time", "the code under test reads no clock; simulated time is counted in scheduler steps (simulated_steps)"),
            "context_switches": tot("switches"),
            "faults_injected": fired,
            "conditions_reached": probe,
            "distinct_measure": cfg["measure"],
            "components": cfg["components"],
            "stages": [{"simulator": s["sim"], "profile": s["profile"], "runs": s["runs"], "distinct": s["distinct"],
                        "workers_stopped_by_time": s["time_limited"], "wall_s": round(s["wall"], 2)} for s in stages],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    if viol:
        ev["coverage"]["violation"] = viol
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/.%s.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, VERIF + "/evidence/%s.json" % prop)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error: %s" % e)
        sys.exit(2)
