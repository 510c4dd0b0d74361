#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--time S]   decide one property by seeded simulation.
   check.py --replay FILE                                 re-execute one replay file against /repo's current tree.
   check.py --setup                                       build every simulator once.
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as B  # noqa: E402

PROPS = {  # property -> (binary, flavour)
    "C01": ("simops", "plain"), "C02": ("simops", "plain"), "C03": ("simops", "assert"), "C04": ("simops", "plain"),
    "C05": ("simops", "plain"), "C06": ("simops", "plain"), "C07": ("simops", "plain"), "C08": ("simregs", "plain"),
    "C09": ("simregs", "plain"), "C10": ("simops", "plain"), "C11": ("simregs", "plain"), "C12": ("simops", "assert"),
    "C13": ("simops", "plain"), "C14": ("simops", "plain"), "C15": ("simops", "plain"),
    "C16": ("simops", "plain"),
}
QUICK_S, THOROUGH_S = 55, 600
WORKERS = max(2, min(8, os.cpu_count() or 2))
STUBS = ["operating system heap (simulated heap with red zones, quarantine and injectable failure)",
         "thread scheduling (one thread runs at a time; the seed decides every switch)",
         "clock and timers (simulated clock)", "locale, rounding mode and environment variables (changed by the simulator, real libc behind)",
         "pthread mutexes, once-guards and atomics (simulated, with happens-before tracking)"]
REAL = ["include/logic/*.hh and src/*.cc of /repo's working tree, unmodified (compiled with -fsanitize=thread call-outs only)",
        "libstdc++ templates instantiated into it, std::string, iostreams, the C++ exception runtime, libc"]
SUMS = ["runs", "items", "solos", "dropped", "discarded", "nontrivial", "rechecked", "scheds", "opargs", "faults_planned", "damaged",
        "accesses", "points", "switches", "static_acc", "heap_acc", "arena_acc", "shared_acc", "atomics", "guard_inits", "guard_waits",
        "lock_ops", "allocs", "alloc_fail", "env_changes", "forced", "stalls", "clock_reads", "steps", "crashes", "torn", "restarts",
        "checkpoints", "restores", "aliased", "text_b", "text_h", "text_d", "text_s", "oob_index", "x_index", "cycles", "nba", "interrupts", "statics_unloaded", "initialisers_run", "destructors_run", "forks", "soaks", "computed", "checked_bits", "model_checks", "states"]


def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) kind=(\S+) op=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups())
    except FileNotFoundError:
        pass
    return res


def build(prop):
    b, f = PROPS[prop]
    return B.build(b, f)


def worker_cmd(exe, prop, seed, start, stride, extra):
    return [exe, "--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(stride)] + extra


def run_all(cmds, limit):
    ps = [subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace") for c in cmds]
    res, end = [], time.time() + limit
    for p in ps:
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
            res.append((p.returncode, err))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            res.append((-99, "timed out"))
    return res


def replay(exe, path):
    p = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
    return p.returncode, p.stdout


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for b, f in sorted(set(PROPS.values())):
            if b == "simregs" and not os.path.isdir(os.path.join(VERIF, "sim", "regs")):
                continue
            print("building", b, f, flush=True)
            print(" ->", B.build(b, f), flush=True)
        return 0
    if a[:1] == ["--replay"]:
        m = re.search(r"^property (\S+)", open(a[1]).read(), re.M)
        rc, out = replay(build(m.group(1)), a[1])
        print(out, end="")
        return rc
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"), 0)
    secs = THOROUGH_S if tier == "thorough" else QUICK_S
    if "--time" in a:
        secs = float(a[a.index("--time") + 1])
    t0 = time.time()
    print(f"property {prop} tier {tier} seed {seed}", flush=True)
    exe = build(prop)
    print(f"built {exe} in {time.time() - t0:.1f} s", flush=True)
    notes = json.load(open(os.path.join(os.path.dirname(exe), "notes.json")))
    for n in notes:
        print("note:", n)
    known = known_findings(prop)
    extra_known = ["--known", "\x01".join(f"{p}:{k}:{o}" for p, k, o, _ in known)] if known else []
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="check-", dir=os.path.join(VERIF, "build"))
    try:
        return decide(prop, tier, seed, secs, t0, exe, notes, known, extra_known, rdir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, secs, t0, exe, notes, known, extra_known, rdir, tmp):
    # 1. determinism proof: the same runs in 1, 3 and 5 processes give the same sum of execution hashes
    N = 60 if tier == "quick" else 600
    parts = []
    for workers in (1, 3, 5):
        for w in range(workers):
            n = len(range(w, N, workers))
            o = os.path.join(tmp, f"d{workers}.{w}")
            parts.append((workers, o, worker_cmd(exe, prop, seed, w, workers, ["--runs", str(n), "--time", "120", "--survey", "--out", o] + extra_known)))
    run_all([p[2] for p in parts], 200)
    sums = {}
    for workers, o, _ in parts:
        try:
            sums[workers] = (sums.get(workers, 0) + json.load(open(o))["hashsum"]) % 2**64
        except (OSError, ValueError):
            sums[workers] = None
            break
    deterministic = None not in sums.values() and len(set(sums.values())) == 1
    print(f"determinism: {N} runs in 1, 3 and 5 processes: hash sums {sums} -> {'equal' if deterministic else 'DIFFERENT'}", flush=True)

    # 2. the search
    cmds, outs, reps = [], [], []
    for w in range(WORKERS):
        o, r = os.path.join(tmp, f"w{w}.json"), os.path.join(tmp, f"w{w}.replay")
        outs.append(o)
        reps.append(r)
        cmds.append(worker_cmd(exe, prop, seed, w, WORKERS, ["--time", str(secs), "--out", o, "--replay-out", r] + extra_known))
    res = run_all(cmds, secs + 180)
    js, failed = [], []
    for w, (rc, err) in enumerate(res):
        if rc not in (0, 1, 5):
            failed.append(f"worker {w} ended with {rc}: {err[-300:]}")
        try:
            js.append((w, json.load(open(outs[w]))))
        except (OSError, ValueError):
            failed.append(f"worker {w} left no result")
    tot = {k: sum(j.get(k, 0) for _, j in js) for k in SUMS}
    mism = sum(j["mismatch"] for _, j in js)
    khits = {}
    for _, j in js:
        for k, v in j["known"].items():
            khits[int(k)] = khits.get(int(k), 0) + v

    # 3. confirm what was found: two fresh processes must both reproduce the replay file exactly
    confirmed = []
    for w, j in js:
        if not j["found"]:
            continue
        runs = [replay(exe, reps[w]) for _ in range(2)]
        good = all(rc == 1 and "REPRODUCED" in out for rc, out in runs)
        if good:
            confirmed.append((w, j["viol"]))
        else:
            failed.append(f"worker {w}: violation {j['viol']} does not replay: {runs[0][1][-300:]}")
    confirmed.sort(key=lambda c: (os.path.getsize(reps[c[0]]), c[0]))

    wall = time.time() - t0
    samples = [s for _, j in js for s in j["samples"]][:8] or ["(no sample taken)"]
    el = max([j["elapsed"] for _, j in js] or [1])
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["nontrivial"] if "nontrivial" in tot else 0,
        "rule": RULES[prop],
        "samples": samples,
        "runs_per_hour": int(tot["runs"] * 3600 / max(el, 0.1)),
        "seeds_per_hour": int(tot["runs"] * 3600 / max(el, 0.1)),
        "seeds": f"run id i of base seed {seed} has seed mix({seed}*0x1000003+17, i); ids 0..{tot['runs'] - 1} approximately, dealt round-robin to {WORKERS} workers",
        "simulated_time_steps": tot["steps"],
        "simulated_time_note": "the library has no timers; simulated time is counted in executed basic blocks / model delta cycles",
        "distinct_interleavings": tot["scheds"],
        "distinct_interleavings_measure": "distinct hashes of (operations, their arguments and threads; sequence of all scheduling, fault and environment decisions with their instruction-level points); the seed itself is not part of the hash",
        "distinct_operation_argument_pairs": tot["opargs"],
        "operations_in_catalogue": max([j.get("ops_total", 0) for _, j in js] or [0]),
        "operations_exercised_by_the_busiest_worker": max([j.get("ops_run", 0) for _, j in js] or [0]),
        "basic_blocks_reached_by_the_busiest_worker": max([j.get("blocks_covered", 0) for _, j in js] or [0]),
        "faults_injected": {k: tot[k] for k in ("switches", "alloc_fail", "env_changes", "stalls", "damaged", "crashes", "torn", "oob_index", "x_index", "interrupts", "statics_unloaded", "initialisers_run", "destructors_run", "forks") if tot.get(k)},
        "totals": {k: v for k, v in tot.items() if v},
        "determinism": {"runs_hashed_at_1_3_5_workers": N, "equal": deterministic, "rechecked_in_search": tot["rechecked"], "mismatches": mism},
        "real_components": REAL, "stub_components": STUBS,
        "build_notes": notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sampling, not enumeration: a clean batch is evidence, not proof",
                          "one compiler (g++ 13, -O1) and one libstdc++; memory model: sequentially consistent execution plus happens-before race detection"],
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{tot['runs']} runs, {tot['items']} operations, {tot['scheds']} distinct schedules, faults {cov['faults_injected']}, {el:.0f} s", flush=True)
    for i, (p, k, o, what) in enumerate(known):
        print(f"KNOWN-FINDING: property={p} {what} (met {khits.get(i, 0)} times in this run)")
    if confirmed:
        w, v = confirmed[0]
        path = os.path.join(rdir, f"{prop}-{v['seed']:016x}.replay")
        shutil.copyfile(reps[w], path)
        print(f"violation: {v['kind']} in {v['op']}: {v['msg']}")
        print(open(path).read(), end="")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    for f in failed:
        print("ERROR:", f)
    if failed or mism or not deterministic or not tot["runs"]:
        print("ERROR: the simulation was not usable: no verdict")
        return 2
    return 0


NT = " A run is non-trivial when at least one schedule switch, injected fault or environment change fired in it or it has more than one operation."
RULES = {
    "C01": "2-4 simulated threads each working on values of their own; operations drawn from the catalogue; preemption at any instrumented memory access." + NT,
    "C02": "2-4 simulated threads all reading the same published values; first-use initialisation included; every access checked for a happens-before race." + NT,
    "C03": "operations on values placed in red-zoned simulated storage; every access checked against the storage it belongs to." + NT,
    "C04": "the same operation on the same arguments repeated at different points of a history, after other operations, heap churn, garbage on the stack and in fresh memory; outcomes compared." + NT,
    "C05": "formatting and parsing with the n-th allocation (or all above a size) failing, retried; correct text/value or an error, nothing lost." + NT,
    "C06": "computation and update with every allocation failing; must deliver the same value as without." + NT,
    "C07": "locale, rounding mode, environment and clock changed at arbitrary points inside operations; outcome must be that of the undisturbed operation." + NT,
    "C08": "register programs whose state is checkpointed as text or bytes to simulated durable storage, crashed at an arbitrary instruction-level point, restarted from what is durable; final state must equal the crash-free model." + NT,
    "C09": "interleaved processes reading and updating registers; every bit compared with a per-bit reference model after every step." + NT,
    "C10": "operations with extreme arguments under schedule and stalls; every one must finish in its step budget." + NT,
    "C11": "interleaved histories over packed/unpacked arrays, structs and unions with valid, unknown and out-of-range indices; compared with a reference model." + NT,
    "C12": "texts as an interrupted or corrupted writer leaves them (truncated, bit-flipped, spliced, emptied) handed to the parsers; must be a value or an error, no wild access, no hang." + NT,
    "C13": "operations executed before the library's dynamic initialisers, between, after its static destructors, and in the child of a fork that caught other threads inside operations; outcomes compared with those in a normal process." + NT,
    "C14": "operations interrupted at arbitrary instrumented accesses by handlers that run operations on the same thread; both outcomes compared with lone execution." + NT,
    "C15": "histories (same or ever different arguments, damaged texts and failing allocations among them) and threads that come and go; bytes and descriptors held by operations that ended must stop growing; suspicious histories are repeated for 2048 executions." + NT,
    "C16": "operations whose operands are the outcomes of seeded chains (up to four deep) of other operations; each outcome compared, bit for bit, with the outcome on operands with the same bits that were entered directly. A run is non-trivial when it has more than one operation.",
}

if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("ERROR: the simulator does not build against this tree")
        print(str(e)[:6000])
        sys.exit(2)
