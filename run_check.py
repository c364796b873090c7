#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

  run_check.py Cxx            run the check (VERIF_SEED, VERIF_TIER from the environment)
  run_check.py --replay FILE  replay a reported violation in a fresh process (SIM_TRACE=1: with its trace)
  run_check.py --determinism  self-test: every property's runs twice, in different batch layouts

Exit 0: held on everything explored.  Exit 1: violation (line VIOLATION property=.. replay=..).
Exit 2: the check itself could not run."""
import json, os, re, struct, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/sim")
import build as B

WORKERS = 8
# Worker layout per property (build variant of each of the 8 workers) and seeds per worker: (quick, thorough).
DEFAULT = "aaaaoooo"
PLAN = {
    "C01": (DEFAULT, 5000, 60000), "C02": (DEFAULT, 2600, 60000), "C03": (DEFAULT, 3000, 30000), "C04": (DEFAULT, 7000, 60000),
    "C05": (DEFAULT, 14000, 90000), "C06": (DEFAULT, 8000, 80000), "C07": (DEFAULT, 10000, 120000), "C08": (DEFAULT, 4500, 60000),
    "C09": (DEFAULT, 5000, 60000), "C10": (DEFAULT, 3000, 60000), "C11": (DEFAULT, 7000, 60000), "C12": (DEFAULT, 5000, 60000),
    "C13": ("rrrrrrrr", 1500, 30000), "C14": (DEFAULT, 3000, 60000), "C15": (DEFAULT, 9000, 60000), "C16": ("aaoooooo", 3000, 60000),
    "C17": ("oooooooa", 60, 1500), "C18": (DEFAULT, 3000, 60000), "C19": (DEFAULT, 9000, 90000),
}
VAR = {"a": "asan", "o": "opt", "r": "race"}
CAP = {"quick": 240, "thorough": 3000}      # seconds; never reached on an idle machine

def sim(binary, args, **kw):
    env = dict(os.environ); env.pop("SIM_NOASLR", None)
    return subprocess.Popen([binary] + args, env=env, **kw)

def read_findings():
    out = []
    try:
        for line in open(VERIF + "/known_findings.txt"):
            line = line.strip()
            if line and not line.startswith("#"): out.append(line)
    except OSError: pass
    return out

def replay_variant(path):
    m = re.search(r"^# variant (\w+)", open(path).read(), re.M)
    return m.group(1) if m else "asan"

def do_replay(path):
    v = replay_variant(path)
    b = B.build([v])[v]
    p = sim(b, ["exec", path], stdout=subprocess.PIPE, text=True)
    out = p.communicate()[0]
    sys.stdout.write(out)
    return p.returncode

def exec_once(b, path):
    p = sim(b, ["exec", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    out = p.communicate()[0].strip().splitlines()
    return p.returncode, (out[-1] if out else "")

def load_sets(f):
    d = open(f, "rb").read(); ns, nsh = struct.unpack_from("<QQ", d)
    vals = struct.unpack_from("<%dQ" % (ns + nsh), d, 16)
    return set(vals[:ns]), set(vals[ns:])

def check(prop):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    layout, nq, nt = PLAN[prop]; n = nq if tier == "quick" else nt
    if os.environ.get("SIM_RUNS"): n = int(os.environ["SIM_RUNS"])
    try: bins = B.build(sorted(set(VAR[c] for c in layout)))
    except RuntimeError as e:
        print("build failed:\n%s" % e); return 2
    t_build = time.time() - t0
    rules = dict(l.split("\t", 1) for l in subprocess.run([list(bins.values())[0], "list"], capture_output=True, text=True).stdout.splitlines())
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    os.makedirs(VERIF + "/replays", exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True)
    procs = []
    try:
        for w in range(WORKERS):
            v = VAR[layout[w]]; out = "%s/w%d" % (tmp, w)
            procs.append((w, v, out, sim(bins[v], ["batch", "--prop", prop, "--seed", str(seed), "--from", str(w), "--stride", str(WORKERS), "--n", str(n),
                "--seconds", str(CAP[tier]), "--out", out, "--replay", out + ".replay", "--minimise", "40", "--tier", tier], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        # The first failure ends the others: one counterexample is enough.
        pending = dict((p.pid, (w, p)) for w, v, o, p in procs); failed_at = None
        while pending:
            for pid in list(pending):
                w, p = pending[pid]
                if p.poll() is not None:
                    del pending[pid]
                    if p.returncode == 1 and failed_at is None: failed_at = time.time()
            if failed_at and time.time() - failed_at > 3:
                for w, p in pending.values(): kill_tree(p)
            time.sleep(0.02)
        res = []
        for w, v, out, p in procs:
            try: res.append((w, v, out, json.load(open(out + ".json"))))
            except (OSError, ValueError):
                if failed_at is None:
                    print("worker %d (%s) gave no result, exit %s: %s" % (w, v, p.returncode, (p.stderr.read() or b"")[-500:].decode(errors="replace"))); return 2
        viol = None; ungated = []
        for w, v, out, r in sorted(res, key=lambda x: x[3].get("index", 1 << 60)):
            if not r.get("failed"): continue
            if not r.get("gate"): ungated.append((w, v, r)); continue
            path = "%s/replays/%s-seed%d-run%d-%s.txt" % (VERIF, prop, seed, r["index"], v)
            text = open(out + ".replay").read()
            open(path, "w").write("# variant %s\n" % v + text)
            a = exec_once(bins[v], path); b = exec_once(bins[v], path)
            if a[0] == 1 and a == b and ("class=" + r["class"]) in a[1]: viol = (path, r, a[1], w, v); break
            ungated.append((w, v, r))
        runs = sum(r["runs"] for _, _, _, r in res); wall = max([r["wall"] for _, _, _, r in res] + [1e-9])
        faults, counters = {}, {}
        for _, _, _, r in res:
            for k, c in r["faults"].items(): faults[k] = faults.get(k, 0) + c
            for k, c in r["counters"].items(): counters[k] = counters.get(k, 0) + c
        states, shapes = set(), set(); edges = {}
        for w, v, out, r in res:
            s, h = load_sets(out + ".sets"); states |= s; shapes |= h
            e = open(out + ".edges", "rb").read()
            if any(e): edges[v] = bytes(x | y for x, y in zip(edges.get(v, bytes(len(e))), e))
        samples = sum((r["samples"] for _, _, _, r in sorted(res)[:3]), [])
        if viol: samples = [open(viol[0]).read()[:3000]] + samples
        simtime = sum(r["simtime"] for _, _, _, r in res)
        cov = dict(evaluations=runs, distinct_nontrivial=len(shapes), rule=rules.get(prop, ""), samples=samples,
            runs_per_hour=int(runs / wall * 3600), seeds_per_hour=int(runs / wall * 3600), wall_simulating_s=round(wall, 2), wall_building_s=round(t_build, 2),
            simulated_audio_seconds=round(simtime, 1), simulated_clock="frames generated / 48000 per stream (the library has no timers; the frame count is its only clock)",
            api_calls=sum(r["api_calls"] for _, _, _, r in res), library_blocks_executed=sum(r["steps"] for _, _, _, r in res),
            fault_kinds=faults, counters=counters, distinct_schedules=len(shapes), distinct_schedules_measure="hash of configuration and complete operation list, signal seed excluded",
            distinct_states=len(states), distinct_states_measure="property-specific key: converter, channel class, ratio class, phase, size classes of the call and of its result",
            library_blocks_reached={k: sum(1 for x in e if x) for k, e in edges.items()},
            workers=[dict(worker=w, build=B.VARIANTS[v]["desc"], runs=r["runs"], first_seed_index=w, stride=WORKERS) for w, v, _, r in res],
            components=dict(real="all of /repo/src/*.c (unmodified, compiled from the working tree)", simulated="clients, signal sources, sinks, callbacks, threads (fibers), allocator, environment calls", stubs="none of the library's own code"),
            generation="run i uses PRNG stream hash(VERIF_SEED, property, i); executed runs: worker w takes i = w, w+%d, ..." % WORKERS)
        if viol: cov["violation"] = dict(replay=os.path.relpath(viol[0], VERIF), result=viol[2], run=viol[1]["index"], minimise_tries=viol[1]["min_tries"], ops_before=viol[1]["ops_before"], ops_after=viol[1]["ops_after"])
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
            assumptions=["the library is compiled with the configuration of /repo/_build/config.h", "x86-64, IEEE floats; the sampled schedules and faults stand for the rest"])
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f: json.dump(ev, f, indent=1)
        for line in read_findings():
            if line.startswith("known:") and ("property=%s " % prop) in line: print("KNOWN-FINDING: " + line[len("known:"):].strip())
        print("%s: %d runs (%d distinct non-trivial), %.0f s of audio, %d states, %.1f s" % (prop, runs, len(shapes), simtime, len(states), time.time() - t0))
        if viol:
            print("class %s: %s" % (viol[1]["class"], viol[1]["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
            return 1
        if ungated:
            for w, v, r in ungated: print("worker %d (%s): run %s failed (%s: %s) but did not reproduce" % (w, v, r.get("index"), r.get("class"), r.get("msg")))
            return 2
        return 0
    finally:
        for w, v, o, p in procs:
            if p.poll() is None: kill_tree(p)
        shutil.rmtree(tmp, ignore_errors=True)

def kill_tree(p):
    try:
        kids = subprocess.run(["ps", "-o", "pid=", "--ppid", str(p.pid)], capture_output=True, text=True).stdout.split()
        for k in kids:
            try: os.kill(int(k), 9)
            except OSError: pass
        p.kill(); p.wait()
    except OSError: pass

def determinism():
    bins = B.build(list(B.VARIANTS)); bad = 0; total = 0
    for prop in sorted(PLAN):
        v = VAR[PLAN[prop][0][0]]; n = 8 if prop == "C17" else 200
        def hashes(parts):
            got = {}
            ps = [sim(bins[v], ["hashes", "--prop", prop, "--seed", "77", "--from", str(k), "--stride", str(parts), "--n", str(n // parts)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for k in range(parts)]
            for p in ps:
                for l in p.communicate()[0].splitlines(): a, b = l.split(); got[int(a)] = b
            return got
        a, b = hashes(1), hashes(4)
        diff = [i for i in a if a[i] != b.get(i)]; total += len(a)
        print("%s %s: %d runs, %d differ" % (prop, v, len(a), len(diff)), diff[:5]); bad += len(diff) + (len(a) != n) + (len(b) != n)
    print("determinism: %d runs compared, %s" % (total, "all identical" if not bad else "DIFFERENCES"))
    return 1 if bad else 0

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": sys.exit(do_replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "--determinism": sys.exit(determinism())
    if len(sys.argv) == 2 and sys.argv[1] in PLAN: sys.exit(check(sys.argv[1]))
    print(__doc__); sys.exit(2)
