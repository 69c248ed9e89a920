#!/usr/bin/env python3
"""One property check: rebuild the code under test as LLVM IR, explore it symbolically, replay what was found.

usage: check.py <property id>         environment: VERIF_TIER (quick|thorough), VERIF_SEED
       check.py --setup               build everything a check needs (the checks do it too if it is missing)
       check.py --replay <file>       run a recorded counterexample against the natively compiled code
exit: 0 the property held on everything explored, 1 violation, 2 the check could not give an answer
"""
import fcntl, glob, json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
RUSTUP = os.environ.get("RUSTUP_HOME", "/root/.rustup")
TC = "stable-x86_64-unknown-linux-gnu"
LLVM = f"{RUSTUP}/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu/bin"
ENG = f"{B}/engine/release/symx"
REP = f"{B}/harness/replay/vreplay"
IR = f"{B}/harness/h.ll"


def env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{B}/{target}", RUSTFLAGS="--cfg fajt_vp", CARGO_TERM_COLOR="never")
    return e


def sh(cmd, cwd, target):
    p = subprocess.run(cmd, cwd=cwd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print("ERROR: build failed:", " ".join(cmd))
        sys.exit(2)


def build():
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = time.time()
        sh(["cargo", "build", "--release", "--offline", "--locked"], f"{V}/engine", "engine")
        for f in glob.glob(f"{B}/harness/release/deps/vir*.bc"):
            os.remove(f)
        # the bitcode is produced afresh on every run
        try:
            os.utime(f"{V}/harness/ir/src/lib.rs")
        except OSError:
            pass
        sh(["cargo", "rustc", "-p", "vir", "--release", "--offline", "--locked", "--lib", "--", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], f"{V}/harness", "harness")
        bc = glob.glob(f"{B}/harness/release/deps/vir.vir.*-cgu.0.rcgu.bc")
        if len(bc) != 1:
            print("ERROR: expected one bitcode file, found", bc)
            sys.exit(2)
        # function names stay: the executor knows the panic machinery by them, and evidence lists them
        sh([f"{LLVM}/opt", "--strip-debug", "--discard-value-names", "-passes=globaldce", bc[0], "-S", "-o", IR], V, "harness")
        for f in glob.glob(f"{B}/harness/release/deps/vir*.bc"):
            os.remove(f)
        sh(["cargo", "build", "--profile", "replay", "--offline", "--locked", "-p", "vreplay"], f"{V}/harness", "harness")
        return time.time() - t


def native(args, inp=None, timeout=60):
    try:
        p = subprocess.run([REP] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        out = p.stdout
        if p.returncode < 0:
            out += f"\nRESULT crash signal {-p.returncode}"
        return out
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\nRESULT hang"


def result_of(out):
    r = [l for l in out.splitlines() if l.startswith("RESULT ")]
    return r[-1][7:] if r else "none"


def main():
    if sys.argv[1] == "--setup":
        print("built in %.1f s" % build())
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        build()
        h = json.loads(native(["list"]))[r["property"]]["harness"]
        print(native(["run", str(h), str(r["job"]), r["bytes"]], timeout=20))
        return 0
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build_s = build()
    spec = json.loads(native(["list"]))[pid]
    h = str(spec["harness"])
    jobs = [j for j in spec["jobs"] if j["tier"] == 0 or tier == "thorough"]
    # thorough: the quick jobs come first, so that running out of time costs only the deeper ones
    jobs.sort(key=lambda j: j["tier"])
    budget = int(os.environ.get("VERIF_TIME", "420" if tier == "quick" else "3000"))
    outf = f"{B}/out-{pid}.json"
    cmd = [ENG, "--ll", IR, "--harness", h, "--job", ",".join(str(j["job"]) for j in reversed(jobs)), "--threads", "8", "--time", str(budget),
           "--max-steps", "60000000", "--sample", "60" if tier == "quick" else "200", "--stop-after", "400", "--out", outf]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0:
        print(p.stderr[-3000:])
        print("ERROR: the symbolic executor stopped with", p.returncode)
        return 2
    o = json.load(open(outf))
    os.remove(outf)

    rc = 0
    # counterexamples: replayed on the natively compiled code
    os.makedirs(f"{V}/replays", exist_ok=True)
    for f in glob.glob(f"{V}/replays/{pid}-*.json"):
        os.remove(f)
    confirmed, refuted, tried, hangs = [], [], {}, {}
    recorded = [json.loads(l) for l in open(f"{V}/known_findings.jsonl") if l.startswith("{")]
    recorded = [k for k in recorded if k.get("status") == "open" and (k["property"] == pid or pid in k.get("also", []))]
    tmpl = {j["job"]: j["template"] for j in jobs}
    for f in o["findings"]:
        key = (f["job"], f["kind"], f["code"], f["msg"][:100])
        tried[key] = tried.get(key, 0) + 1
        if tried[key] > 2 or len(confirmed) >= 40 or (f["kind"] == "hang" and sum(1 for c in confirmed if c["result"] == "hang") >= 2):
            continue
        if f["kind"] == "hang" and sum(map(len, hangs.values())) >= 2 and any(k["marker"] == "hang" and k["template"] == tmpl[f["job"]] for k in recorded):
            continue
        out = native(["run", h, str(f["job"]), f["bytes"]], timeout=10)
        r = result_of(out)
        ok = r == f"fail {f['code']}" if f["kind"] == "fail" else r.startswith("panic") or r.startswith("crash") if f["kind"] == "panic" else r == "hang" or r.startswith("crash")
        rec = {"property": pid, "harness": int(h), "job": f["job"], "template": tmpl[f["job"]], "bytes": f["bytes"], "found": [f["kind"], f["code"], f["msg"][:300]], "result": r, "output": out.splitlines()}
        slow = [k for k in recorded if k["marker"] == "hang" and k["template"] == tmpl[f["job"]]]
        if slow and f["kind"] == "hang":
            if ok:
                hangs.setdefault(slow[0]["what"], []).append(f["bytes"])
            continue
        (confirmed if ok else refuted).append(rec)
    # paths the executor could not follow to their end: what the compiled code does on their inputs
    for f in o["unsupported_at"]:
        r = result_of(out := native(["run", h, str(f["job"]), f["bytes"]], timeout=10))
        if r.split()[0] in ("fail", "panic", "crash", "hang") and len(confirmed) < 40:
            confirmed.append({"property": pid, "harness": int(h), "job": f["job"], "template": tmpl[f["job"]], "bytes": f["bytes"], "found": ["unsupported", 0, f["msg"][:300]], "result": r, "output": out.splitlines()})
    for i, rec in enumerate(confirmed):
        path = f"{V}/replays/{pid}-{i}.json"
        json.dump(rec, open(path, "w"), indent=1, ensure_ascii=False)
        if i < 5:
            print(f"VIOLATION property={pid} replay={path}")
            for l in rec["output"][:1] + rec["output"][-6:]:
                print("   ", l[:600])
        rc = 1
    if refuted and rc == 0:
        print("ERROR: a counterexample of the executor did not reproduce natively:", json.dumps(refuted[0])[:1500])
        rc = 2

    # recorded findings
    listed = {str(k["marker"]): k for k in recorded}
    for k, v in hangs.items():
        print(f"KNOWN-FINDING: property={pid} {k} ({len(v)} inputs run natively)")
    for k, v in sorted(o["knowns"].items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]['what']} ({v['count']} paths)")
        else:
            path = f"{V}/replays/{pid}-known{k}.json"
            json.dump({"property": pid, "job": v["job"], "bytes": v["bytes"], "output": native(["run", h, str(v["job"]), v["bytes"]]).splitlines()}, open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1

    # the executor against the machine, on sampled paths
    smp = o["samples"]
    agree, bad, texts = 0, [], []
    if smp:
        lines = native(["batch", h], "\n".join(f"{s['job']} {s['bytes']}" for s in smp), timeout=300).split("\n")
        for s, l in zip(smp, lines):
            q = l.split("\t")
            if q[0] == s["digest"] and q[1] == "ok":
                agree += 1
                texts.append({"job": s["job"], "source": q[2][1:-1]})
            else:
                bad.append((s, l))
        if bad and rc == 0:
            print("ERROR: the symbolic executor and the compiled code disagree:", bad[0])
            rc = 2

    # vacuity: the exploration must have met both accepted and rejected inputs
    cov = set()
    for r in o["jobs"].values():
        cov |= set(r["covers"])
    want = set(spec.get("covers", [1]))
    if rc == 0 and not o["timed_out"] and not want <= cov:
        print("ERROR: vacuous exploration: reached covers", sorted(cov), "of", sorted(want))
        rc = 2

    complete = not o["timed_out"] and not o["stopped"] and not o["unsupported"] and o["inconclusive"] == 0
    fns = [f for f in o["functions"] if "fajt" in f[0]]
    step = max(1, len(texts) // 24)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] + r["pruned"] for r in o["jobs"].values()),
            "transitions": o["steps"],
            "traces_validated_against_impl": agree,
            "samples": texts[::step][:30],
            "explanation": "states: symbolic paths explored to their end; transitions: LLVM-IR instructions of the real code (and the harness) executed on them; traces_validated: sampled path models re-run natively with an identical observation digest",
            "exhaustive": complete,
            "bounds": [{"job": j["job"], "template": j["template"], "mode": j["mode"], "paths": o["jobs"].get(str(j["job"]), {}).get("paths", 0),
                        "complete": str(j["job"]) in o["jobs"] and not o["jobs"][str(j["job"])]["cut"] and not o["stopped"]} for j in jobs],
            "outside_bounds": "inputs that no template above generates (longer symbolic holes, other skeletons) and those excluded as don't-care in DESIGN.md",
            "solver": {"name": "z3 4.8.12 (libz3)", "queries": o["queries_z3"], "answered_from_cache_or_model": o["queries_cached"], "unsat": o["queries_unsat"], "unknown": o["queries_unknown"], "seconds_all_threads": o["solver_s"]},
            "forks": o["forks"], "unsupported": o["unsupported"], "inconclusive_paths": o["inconclusive"],
            "timed_out": o["timed_out"], "stopped_early": o["stopped"],
            "functions_encoded": len(o["functions"]), "fajt_functions_encoded": len(fns),
            "fajt_functions": sorted({f[0] for f in fns})[:400],
            "known_findings_met": {k: v["count"] for k, v in o["knowns"].items()},
            "counterexamples": {"reported_by_solver": len(o["findings"]), "confirmed_natively": len(confirmed), "not_reproduced": len(refuted)},
            "build_s": round(build_s, 2), "ir_load_s": o["load_s"], "explore_s": o["wall_s"],
        },
        "assumptions": ["the LLVM IR rustc emits for the linked program is what is executed; the symbolic semantics of it are validated on sampled paths against the native build",
                        "allocation never fails; the heap, memcpy family and panic machinery are modelled by the executor"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1, ensure_ascii=False)
    print(f"{pid} {tier}: {ev['coverage']['states']} paths, {o['queries_z3']} solver queries, {len(jobs)} jobs, {'complete' if complete else 'INCOMPLETE'}, "
          f"{agree}/{len(smp)} samples agree, build {build_s:.1f} s, explore {o['wall_s']:.1f} s")
    if not complete:
        print("NOTE: incomplete:", "timeout" if o["timed_out"] else "", "stopped" if o["stopped"] else "", o["unsupported"] or "", o["inconclusive"] or "")
    return rc


sys.exit(main())
