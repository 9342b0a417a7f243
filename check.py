#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded deterministic simulation of /repo's current tree.

exit 0  nothing found (known findings are listed with KNOWN-FINDING lines)
exit 1  VIOLATION property=<id> replay=<file>  (confirmed twice in fresh processes, minimised)
exit 2  no judgement possible (tree does not compile, libc function without a model, ...)
"""
import json, os, re, struct, subprocess, sys, time, glob, hashlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER") or "quick"
SEED = int(os.environ.get("VERIF_SEED") or "1")
WORKERS = int(os.environ.get("AKT_WORKERS") or "8")
SECS = float(os.environ.get("AKT_SECS") or ("30" if TIER == "quick" else "600"))
OUT = os.environ.get("OUT") or os.path.join(HERE, "build")
AKT = os.path.join(OUT, "akt")
T0 = time.time()

REAL = ["all C sources of /repo compiled unchanged (autark.c, script*.c, node_*.c, deps.c, paths.c, spawn.c, env.c, map.c, xstr.c, pool.c, utils.c, log.c, ...) and the parser generated from scriptx.leg",
        "nested autark processes started by check scripts and commands (the same code, own process image)",
        "string/printf/scanf/sort functions of the host libc"]
STUB = ["kernel: processes, scheduling, pipes, poll, wait, signals, file system with crash/fault injection, clock (sim/os.cpp)",
        "libc functions with side effects: stdio, malloc, dirent, realpath, getenv/setenv, exec family (sim/libc.cpp)",
        "programs a project runs: compiler, archiver, shell subset, generators, check scripts, install helpers (sim/progs.cpp)"]

def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def known_findings():
    known, fixed = [], []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) kind=(\S+) key=(\S+) (.*)", l)
            if m and m[1] == PROP: known.append((m[2], m[3], m[4].strip()))
    return known

def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")

def seed_base():
    # different VERIF_SEEDs explore disjoint ranges of scenario seeds
    h = int.from_bytes(hashlib.sha256(b"akt%d" % SEED).digest()[:4], "big")
    return (h << 24) if SEED != 1 else 0

def main():
    rc, o = sh(["bash", os.path.join(HERE, "sim/build.sh")], 600)
    if rc != 0: print(o[-3000:]); die("the tree cannot be built (rc %s)" % rc)
    known = known_findings()
    work = os.path.join(OUT, "run", PROP); os.makedirs(work, exist_ok=True)
    for f in glob.glob(os.path.join(work, "*")): os.unlink(f)
    evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True)
    base = seed_base(); t_start = time.time()
    procs = []
    for i in range(WORKERS):
        lf = open(os.path.join(work, "log.%d" % i), "wb")
        p = subprocess.Popen([AKT, "run", "--prop", PROP, "--from", str(base + i), "--stride", str(WORKERS), "--secs", str(SECS), "--out", work, "--id", str(i), "--max", "2"] +
                             [x for k in known for x in ("--known", k[0] + " " + k[1])],
                             stdout=lf, stderr=subprocess.DEVNULL, cwd=work, start_new_session=True)
        procs.append([p, lf, None])
    def lines():
        v = []
        for i in range(WORKERS):
            for l in open(os.path.join(work, "log.%d" % i), errors="replace"):
                try: v.append(json.loads(l))
                except ValueError: pass
        return v
    deadline = time.time() + SECS * 2 + 90
    while any(p[0].poll() is None for p in procs) and time.time() < deadline:
        time.sleep(0.3)
        if any(d["t"] == "viol" for d in lines()): time.sleep(1.0); break
    stuck = []
    for i, p in enumerate(procs):
        if p[0].poll() is None:
            if time.time() >= deadline: stuck.append(i)
            p[0].kill()
            p[0].wait(); p[2] = "stopped"
        elif p[0].returncode != 0: p[2] = p[0].returncode
        p[1].close()
    search_wall = time.time() - t_start
    recs = lines(); viols = [d for d in recs if d["t"] == "viol"]
    errors = []
    # a worker that ended abnormally: the case it was executing
    for i, p in enumerate(procs):
        if p[2] is None or (p[2] == "stopped" and i not in stuck): continue
        if p[2] == 75: errors.append("worker %d: the tree uses a libc function which the simulator does not model: %s" % (i, open(os.path.join(work, "cur.%d" % i)).read().strip()[:200])); continue
        try: cur = open(os.path.join(work, "cur.%d" % i), errors="replace").read().strip().split("\n")
        except OSError: cur = []
        if not cur or len(cur[0].split()) < 3: errors.append("worker %d ended with %s" % (i, p[2])); continue
        pr, sd, sp = cur[0].split()[:3]
        f = os.path.join(work, "v.crash.%d" % i)
        with open(f, "w") as w:
            w.write("akt-replay 1\nprop %s\nseed %s\nspecial %s\nsimple 0\nmaxbuild 1000\nmaskrules\nmaskops\n" % (pr, sd, sp))
            for l in cur[1:]:
                if l.startswith("fault "): w.write(l.rstrip() + "\n")
            w.write("kind crash\nhash 0\n# violation: the simulated process corrupted memory or never ended (worker ended with %s)\n" % (p[2],))
        viols.append({"t": "viol", "seed": int(sd), "kind": "crash", "detail": "simulation ended abnormally (%s): memory corruption or endless loop" % (p[2],), "key": "", "file": f, "abn": True})
    confirmed = None; unconfirmed = 0
    # prefer violations with short traces: try each kind once
    seen = set()
    for v in viols:
        if v["kind"] in seen and len(viols) > 6: continue
        seen.add(v["kind"])
        dst = os.path.join(evd, "replay-%s-%s-%d.txt" % (PROP, v["kind"], v["seed"]))
        if v.get("abn"):
            a = sh([AKT, "replay", v["file"], "-q"], 60)[0]; b = sh([AKT, "replay", v["file"], "-q"], 60)[0]
            if a == b and a not in (0, 1, 2, 75): confirmed = (v, dst); os.replace(v["file"], dst); break
            if a == 1 and b == 1: confirmed = (v, dst); os.replace(v["file"], dst); break
            unconfirmed += 1; errors.append("worker ended abnormally on seed %d, not reproduced (%s %s)" % (v["seed"], a, b)); continue
        rc, _ = sh([AKT, "min", v["file"], dst, "25"], 120)
        if rc != 0 or not os.path.exists(dst): os.replace(v["file"], dst)
        ok = 0
        for _ in range(2):
            rc, o = sh([AKT, "replay", dst, "-q"], 120)
            if rc == 1 and "same-execution=yes" in o: ok += 1
        if ok == 2: confirmed = (v, dst); break
        unconfirmed += 1
    ends = [d for d in recs if d["t"] == "end"]
    tot = {}
    for k in ("runs", "seeds", "builds", "ok_builds", "failed_builds", "steps", "execs", "faults", "fault_runs", "determ", "nondet", "switches", "sim_s"): tot[k] = sum(d.get(k, 0) for d in ends)
    tot["nondet"] += sum(1 for d in recs if d["t"] == "nondet") - tot["nondet"] if not ends else 0
    def merge(n):
        m = {}
        for d in ends:
            for k, c in d.get(n, {}).items(): m[k] = m.get(k, 0) + c
        return dict(sorted(m.items()))
    def union(n):
        s = set()
        for f in glob.glob(os.path.join(work, n + ".*")):
            b = open(f, "rb").read(); s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
        return len(s)
    inter, points = union("inter"), union("points")
    kf = {}
    for d in ends:
        for k, c in d.get("known", {}).items(): kf[k] = kf.get(k, 0) + c
    for kind, key, text in known:
        if kf.get(kind + " " + key): print("KNOWN-FINDING: property=%s %s" % (PROP, text))
    samples = []
    for sd in (base, base + 1):
        rc, o = sh([AKT, "one", PROP, str(sd), "auto"], 60)
        if rc == 0: samples.append("seed %d: " % sd + " / ".join(l[:160] for l in o.split("\n") if re.search(r"# ", l))[:1200])
    ev = {"property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
      "coverage": {
        "evaluations": int(tot["runs"]), "distinct_nontrivial": inter,
        "rule": "A case is one simulated history: a project generated from the seed, 2-7 builds with random edits in between, random scheduling of all processes and, for fault seeds, injected faults. Distinct cases are counted by the hash of the sequence of (process, operation kind) scheduling decisions of the whole history; every history executes at least one build of a generated project and is compared with the reference model.",
        "samples": samples or ["none"],
        "scenario_seeds": int(tot["seeds"]), "runs_per_hour": int(tot["runs"] / max(search_wall, .1) * 3600), "seeds_per_hour": int(tot["seeds"] / max(search_wall, .1) * 3600),
        "simulated_seconds": round(tot["sim_s"], 1), "builds": int(tot["builds"]), "builds_successful": int(tot["ok_builds"]), "builds_failed": int(tot["failed_builds"]),
        "commands_executed": int(tot["execs"]), "system_calls_simulated": int(tot["steps"]), "context_switches": int(tot["switches"]),
        "faults_fired": int(tot["faults"]), "runs_with_faults": int(tot["fault_runs"]), "faults_by_kind": merge("fault_kinds"),
        "distinct_interleavings": inter, "distinct_schedule_points": points, "features": merge("features"), "known_findings_met": kf,
        "determinism_checks": int(tot["determ"]), "determinism_failures": int(tot["nondet"]), "unconfirmed": unconfirmed, "workers": WORKERS,
        "real_components": REAL, "stub_components": STUB},
      "assumptions": ["the simulated kernel and tools behave as POSIX and the C compiler driver do (DESIGN.md section 3)", "project scripts come from the generator grammar described in DESIGN.md section 4"],
      "wall_s": round(time.time() - T0, 1), "violations": 1 if confirmed else 0}
    json.dump(ev, open(os.path.join(evd, PROP + ".json"), "w"), indent=1)
    if confirmed:
        v, dst = confirmed
        print("%s: %s (seed %d)" % (v["kind"], v["detail"], v["seed"]))
        print("replay with: %s replay %s" % (AKT, dst))
        print("VIOLATION property=%s replay=%s" % (PROP, dst)); return 1
    if errors or not ends or tot["runs"] < 50:
        for e in errors: print("ERROR: " + e)
        if not ends or tot["runs"] < 50 or errors: die("no judgement")
    print("%s held: %d runs of %d seeds, %d builds, %d faults, %d distinct interleavings, %.0f s simulated, %.0f s" % (PROP, tot["runs"], tot["seeds"], tot["builds"], tot["faults"], inter, tot["sim_s"], time.time() - T0))
    return 0

sys.exit(main())
