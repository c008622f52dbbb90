#!/usr/bin/env python3
"""run.py PROPERTY: decide one property on /repo's current working tree.

Compiles /repo (with the harness crate) to LLVM IR, executes the property's harnesses symbolically
(every input byte a solver variable, every structural choice forked), replays what the solver found
and a sample of the explored paths against the natively compiled code, and writes the evidence file.
Exit 0: held on everything explored; 1: a violation, reproduced natively; 2: no answer.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
C = CHECKS[PID]
OUT = f"{V}/target/run/{PID}-{TIER}"
ENG = f"{V}/engine/target/release/sxe"
DEEP = TIER == "thorough"
# exploration stops after this many seconds from the start of the check
DEADLINE = 3600 if DEEP else 560
WORKERS = min(8, os.cpu_count() or 8)


def err(msg):
    print(f"ERROR property={PID} {msg}", flush=True)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    r = sh(["cargo", "build", "--release", "--offline", "--locked", "-q"], cwd=f"{V}/engine", env=env)
    if r.returncode != 0:
        err("engine does not build:\n" + r.stdout[-3000:])
    os.makedirs(OUT, exist_ok=True)
    feats = C["module"] + (",deep" if DEEP else "")
    if C.get("internal"):
        # these harnesses include a private source file; without it, the others still decide
        r = sh([f"{V}/build.sh", feats + "," + C["internal"], OUT] + [h["name"] for h in C["harnesses"]])
        if r.returncode == 0:
            return
        C["harnesses"] = [h for h in C["harnesses"] if not h.get("internal")]
        C["outside"] = C.get("outside", "") + f"; {C['internal']}: the private source file it includes does not build on its own in this tree"
        print(f"NOTE: {C['internal']} does not build in this tree; its harnesses were left out")
    r = sh([f"{V}/build.sh", feats, OUT] + [h["name"] for h in C["harnesses"]])
    if r.returncode != 0:
        err("harness build failed:\n" + r.stdout[-3000:])


def run_task(t):
    h, shard, n = t
    left = DEADLINE - (time.time() - T0)
    name = h["name"]
    out = f"{OUT}/{name}.{shard}.json"
    if os.path.exists(out):
        os.remove(out)
    if left < 2:
        return dict(harness=name, skipped=True)
    secs = min(left, h.get("deep_secs", 3000) if DEEP else h.get("secs", 500))
    cmd = [ENG, f"{OUT}/code.ll", name, "--secs", str(int(secs)), "--viol", "24", "--sample", str(h.get("sample", 12)),
           "--shard", f"{shard}/{n}", "--steps", str(h.get("steps", 4_000_000)), "--timeout", "60000", "--out", out]
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return dict(harness=name, skipped=True, why="engine timeout")
    if r.returncode == 4:
        return dict(harness=name, error="the solver's model does not satisfy its own query")
    try:
        return json.load(open(out))
    except Exception:
        return dict(harness=name, error=f"engine exit {r.returncode}: {r.stderr[-400:]}")


def replay(cases, tag):
    """cases: list of (harness, inputs).  Native outcome per case."""
    res = [None] * len(cases)
    todo = list(range(len(cases)))
    while todo:
        f = f"{OUT}/replay-{tag}.txt"
        with open(f, "w") as o:
            for i in todo:
                o.write(cases[i][0] + " " + " ".join(f"{k}:{v}" for k, v in cases[i][1]) + "\n")
        p = subprocess.Popen([f"{OUT}/replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        import threading
        last = [time.time(), False]

        def watch():
            while p.poll() is None:
                time.sleep(0.2)
                if time.time() - last[0] > 20:
                    last[1] = True
                    p.kill()
        th = threading.Thread(target=watch, daemon=True)
        th.start()
        cur = None
        done = 0
        for line in p.stdout:
            last[0] = time.time()
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["end"] == "start":
                cur = d["case"]
            else:
                res[todo[d["case"]]] = d
                done = d["case"] + 1
                cur = None
        p.wait()
        if cur is not None:
            res[todo[cur]] = dict(end="hang" if last[1] else "crash", detail=f"exit {p.returncode}", notes=[], mismatch=False)
            done = cur + 1
        if done == 0:
            break
        todo = todo[done:]
    return res


def known():
    """entries `known: property=ID harness=NAME end=KIND:DETAIL text`"""
    ks = []
    f = f"{V}/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) harness=(\S+) end=(\S+) (.*)", l.strip())
            if m and m.group(1) == PID:
                ks.append((m.group(2), m.group(3), m.group(4)))
    return ks


def main():
    build()
    tb = time.time() - T0
    tasks = []
    for h in C["harnesses"]:
        n = h.get("deep_shards", h.get("shards", 1)) if DEEP else h.get("shards", 1)
        for s in range(n):
            tasks.append((h, s, n))
    # long ones first
    tasks.sort(key=lambda t: -t[2])
    with ThreadPoolExecutor(WORKERS) as ex:
        outs = list(ex.map(run_task, tasks))
    te = time.time() - T0 - tb
    errors, per, viol, samples = [], {}, [], []
    funcs = set()
    for (h, s, n), o in zip(tasks, outs):
        name = h["name"]
        a = per.setdefault(name, dict(harness=name, shards=n, complete=True, paths=0, ok=0, queries=0, sat=0, unsat=0, unknown=0,
                                      solver_secs=0.0, cache_hits=0, decisions=0, steps=0, secs=0.0, unsupported={}, reach=0,
                                      ends={}, max_symbolic_bytes=0, slowest_query=0.0, violation_counts={}))
        if o.get("error"):
            errors.append(f"{name}: {o['error']}")
            a["complete"] = False
            continue
        if o.get("skipped"):
            a["complete"] = False
            continue
        for k in ("paths", "queries", "sat", "unsat", "unknown", "cache_hits", "decisions", "steps"):
            a[k] += o[k]
        for k in ("solver_secs", "secs"):
            a[k] = round(a[k] + o[k], 3)
        a["slowest_query"] = max(a["slowest_query"], o["slowest_query"])
        a["max_symbolic_bytes"] = max(a["max_symbolic_bytes"], o["max_bytes"])
        a["complete"] &= bool(o["complete"]) and not o.get("solver_unknown")
        a["reach"] |= o["reach"]
        for k, v in o["ends"].items():
            a["ends"][k] = a["ends"].get(k, 0) + v
        for k, v in o["unsupported"].items():
            a["unsupported"][k] = a["unsupported"].get(k, 0) + v
        for k, v in o["violation_counts"].items():
            a["violation_counts"][k] = a["violation_counts"].get(k, 0) + v
        for v in o["violations"]:
            if v["end"] != "unsupported":
                viol.append((name, v))
        for v in o["samples"]:
            samples.append((name, v))
        funcs |= set(o["functions"])
    # ---- replay
    bykind = {}
    for name, v in viol:
        bykind.setdefault((name, f"{v['end']}:{v['detail']}"), []).append(v)
    cases, idx = [], []
    for key, vs in bykind.items():
        vs.sort(key=lambda v: (len(v["inputs"]), v["inputs"]))
        for v in vs[:6]:
            cases.append((key[0], v["inputs"]))
            idx.append((key, v))
    rv = replay(cases, "viol")
    ks = known()
    confirmed, knownhits, unconf = {}, {}, []
    for (key, v), r in zip(idx, rv):
        same = False
        if r:
            if v["end"] == "fail":
                same = r["end"] == "fail" and r["detail"] == v["detail"] or r["end"] in ("panic", "crash", "hang")
            elif v["end"] in ("panic", "abort"):
                same = r["end"] in ("panic", "crash")
            elif v["end"] in ("hang", "recursion"):
                same = r["end"] in ("hang", "crash")
            elif v["end"] == "oob":
                same = r["end"] in ("crash", "panic", "fail")
        if not same:
            unconf.append((key, v, r))
            continue
        k = [t for t in ks if t[0] == key[0] and t[1] == key[1].split(" ")[0]]
        if k:
            knownhits.setdefault(k[0], v)
        else:
            confirmed.setdefault(key, (v, r))
    samples.sort(key=lambda t: (t[0], t[1]["inputs"]))
    import random
    random.Random(SEED).shuffle(samples)
    samples = samples[: (2000 if DEEP else 600)]
    rs = replay([(n, v["inputs"]) for n, v in samples], "ok")
    validated, bad = 0, []
    for (n, v), r in zip(samples, rs):
        if r and r["end"] == "ok" and not r["mismatch"] and [list(x) for x in r["notes"]] == [list(x) for x in v["notes"]]:
            validated += 1
        else:
            bad.append((n, v, r))
    # ---- vacuity: each harness must complete a path, and hit the witnesses it promises
    for h in C["harnesses"]:
        a = per[h["name"]]
        want = h.get("reach", 2)
        if a["ends"].get("fail") or a["violation_counts"]:
            continue
        if a["complete"] and a["reach"] & want != want:
            errors.append(f"{h['name']}: vacuous, witnesses {a['reach']:#x} of {want:#x}")
        if not a["ends"].get("ok"):
            errors.append(f"{h['name']}: no path completed {a['ends']} {a['unsupported']}")
    if bad:
        errors.append(f"{len(bad)} explored path(s) behave differently natively, e.g. {bad[0][0]} {bad[0][1]['inputs']} -> {bad[0][2]}")
    for key, v, r in unconf[:3]:
        errors.append(f"not reproduced natively: {key} {v['inputs']} -> {r}")
    # ---- evidence
    tot = lambda k: sum(a[k] for a in per.values())
    names = sorted(f for f in funcs)
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        dem = [re.sub(r"\[[0-9a-f]{16}\]", "", d) for d in dem if d]
    except Exception:
        dem = names
    inst = [d for d in dem if "instant_xml" in d or "xmlparser" in d or "chrono" in d]
    incomplete = [a["harness"] for a in per.values() if not a["complete"]]
    unsupp = {a["harness"]: a["unsupported"] for a in per.values() if a["unsupported"]}
    ver = sh([ENG, "--version"]).stdout.strip()
    ev = dict(
        property=PID, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=validated,
            samples=[dict(harness=n, inputs=v["inputs"], notes=v["notes"]) for n, v in samples[:8]] or [dict(none=True)],
            exhaustive=not incomplete and not unsupp,
            bounds=C["bounds"], outside=C.get("outside", ""),
            harnesses=sorted(per.values(), key=lambda a: a["harness"]),
            queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), queries_unknown=tot("unknown"),
            solver=ver, solver_seconds=round(tot("solver_secs"), 2), solver_cache_hits=tot("cache_hits"),
            ir_steps=tot("steps"), build_seconds=round(tb, 1), explore_seconds=round(te, 1),
            incomplete=incomplete, unsupported=unsupp,
            functions_encoded=len(names), functions_of_the_implementation=inst[:400],
            violations_found=[dict(harness=k[0], end=k[1], inputs=v["inputs"]) for k, (v, _) in confirmed.items()],
            known_findings=[dict(harness=k[0], end=k[1], text=k[2]) for k in knownhits],
            errors=errors[:10],
        ),
        assumptions=C.get("assumptions", []) + COMMON,
        wall_s=round(time.time() - T0, 1), violations=len(confirmed),
    )
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{PID}.json", "w") as o:
        json.dump(ev, o, indent=1)
    # ---- verdict
    for a in sorted(per.values(), key=lambda a: a["harness"]):
        print(f"{a['harness']}: {'complete' if a['complete'] else 'INCOMPLETE'} paths={a['paths']} queries={a['queries']} "
              f"solver={a['solver_secs']:.1f}s total={a['secs']:.1f}s {a['ends']}{' ' + str(a['unsupported']) if a['unsupported'] else ''}")
    print(f"build {tb:.0f}s explore {te:.0f}s validated {validated}/{len(samples)} traces natively")
    for k in knownhits:
        print(f"KNOWN-FINDING: property={PID} {k[2]}")
    if confirmed:
        os.makedirs(f"{V}/target/replays", exist_ok=True)
        for n, (key, (v, r)) in enumerate(sorted(confirmed.items())[:10]):
            path = f"{V}/target/replays/{PID}-{n}.txt"
            with open(path, "w") as o:
                o.write(key[0] + " " + " ".join(f"{k}:{x}" for k, x in v["inputs"]) + "\n")
            print(f"  {key[0]} {key[1]}: native outcome {r['end']} {r['detail']}; rerun: {OUT}/replay {path}")
            print(f"VIOLATION property={PID} replay={path}")
        sys.exit(1)
    for e in errors:
        print(f"ERROR property={PID} {e}")
    if errors:
        sys.exit(2)
    if incomplete or unsupp:
        print(f"NOTE: not every path was explored: incomplete={incomplete} unsupported={unsupp}")
    print(f"OK property={PID}: held on everything explored")


COMMON = [
    "LLVM IR produced by rustc (opt-level 1, overflow checks on, panic=abort) for /repo's current source, the harness and the standard library is what is executed",
    "the engine's semantics of that IR (validated on every run by replaying sampled paths natively) and z3's answers (each model is re-evaluated by the engine)",
    "allocation never fails; Debug formatting of values is a fixed string; hash keys are a constant",
]

if __name__ == "__main__":
    main()
