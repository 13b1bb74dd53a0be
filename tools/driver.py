"""Decide one property: Verus on the extracted functions, Kani on the loop-free ones, replay on the compiled code."""
import json, os, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "iOverlay", "src")

import engine
import vrun
from props import PROPS


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith(f"known: property={pid} "):
                out.append(ln[len(f"known: property={pid} "):])
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    try:
        return decide(pid, P, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, tier, seed, work, t0):
    thorough = tier == "thorough"
    undecided = []            # nothing can be concluded
    native_fail, native_cases, native_known = [], [], []
    kani_res, kani_s = {}, 0.0
    vres = []
    eng = exe = None
    bodies = []

    def do_verus(u):
        best = None
        # a proof found with any solver seed is a proof
        for extra in ((), ("--smt-option", "smt.random_seed=11")):
            r = vrun.run_unit(os.path.join(VERIF, "verus", u), os.path.join(work, "vx_" + u.replace(".vx", "")), SRC,
                              rlimit=(60 if thorough else 30), timeout=300, extra=extra)
            if best is None or len(r.genuine) + len(r.unknown) < len(best.genuine) + len(best.unknown):
                best = r
            if r.structural or not (r.genuine or r.unknown):
                break
        return best

    def do_engine():
        nonlocal eng, exe, bodies, native_fail, native_cases, native_known, kani_res, kani_s
        hp = [os.path.join(VERIF, "harness", "props", h) for h in P.get("harness", [])]
        if not hp:
            return
        probs = []
        # drop, one by one, harness files that no longer compile against the tree
        live = list(hp)
        while live:
            try:
                eng, bodies = engine.generate(os.path.join(work, "e"), SRC, live)
            except FileNotFoundError as e:
                bad = [h for h in live if any(not os.path.exists(os.path.join(SRC, f)) for f in engine.parse_harness(h)[0] if f != "lib.rs")]
                probs.append(str(e))
                live = [h for h in live if h not in bad]
                continue
            exe, err, _ = engine.build(eng)
            if exe:
                break
            bad = []
            for h in live:
                for f in engine.parse_harness(h)[0]:
                    ff = "vp_lib.rs" if f == "lib.rs" else f
                    if f"src/{ff}:" in err:
                        bad.append(h)
            probs.append("harness does not compile against this tree: " + err[:1500])
            if not bad:
                bad = live[:1]
            live = [h for h in live if h not in bad]
        if not live:
            eng = exe = None
            bodies = []
        undecided.extend(probs)
        if not exe:
            return
        if not thorough:
            bodies = [b for b in bodies if not b.thorough]

        def nat():
            nonlocal native_fail, native_cases, native_known
            ms = P.get("thorough_ms", 60000) if thorough else P.get("quick_ms", 6000)
            f, c, k, pr = engine.native(exe, bodies, seed, ms)
            native_fail, native_cases, native_known = f, c, k
            undecided.extend(pr)

        def kan():
            nonlocal kani_res, kani_s
            r, prob, kani_s = engine.kani(eng, bodies, timeout=(3000 if thorough else 560))
            kani_res = r
            if prob:
                undecided.append(prob)

        with ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(nat), ex.submit(kan)]:
                f.result()

    with ThreadPoolExecutor(6) as ex:
        fe = ex.submit(do_engine)
        fv = [ex.submit(do_verus, u) for u in P.get("verus", []) + (P.get("verus_thorough", []) if thorough else [])]
        vres = [f.result() for f in fv]
        fe.result()

    # ------------------------------------------------------------- evaluate
    failed = []               # named obligations that the verifier refused
    obligations = discharged = 0
    funcs, backends, assumptions = [], {}, list(P.get("assumptions", []))
    bounded = []
    for r in vres:
        if r.structural:
            undecided.append(f"verus unit {r.unit}: " + "; ".join(r.structural)[:1500])
        for g in r.unknown:
            undecided.append(f"verus unit {r.unit}: {g.get('fn')}: {g['msg']}" + (" (annotation lost its place: " + "; ".join(g["missing"]) + ")" if g.get("missing") else ""))
        for g in r.genuine:
            failed.append(dict(backend="verus", unit=r.unit, function=g["fn"], obligation=g["msg"], where=g.get("where", ""), output=g.get("rendered", "")))
        obligations += r.verified + r.errors
        discharged += r.verified
        if r.verified:
            backends["verus/z3"] = backends.get("verus/z3", 0) + r.verified
        for f in r.fns:
            funcs.append(f"{f['file']}::{f['name']} (verus{'' if f['has_spec'] else ', no own contract'})")
        assumptions += [f"verus {r.unit}: {a}" for a in getattr(r, "assumptions", [])]
        assumptions += [f"extraction rewrite {r.unit}: {a}" for a in r.subs] + [f"extraction rule used in {r.unit}: {a}" for a in r.drops]
    bymap = {b.name: b for b in bodies}
    for name, d in kani_res.items():
        b = bymap[name]
        if d["status"] == "SUCCESSFUL":
            if d["checks"] == 0 or (d["cover"] and d["cover"][0] < d["cover"][1]):
                undecided.append(f"kani {name}: vacuous (checks {d['checks']}, cover {d['cover']})")
                continue
            if b.bound:
                bounded.append(f"kani {name}: {d['checks']} checks, bound: {b.bound}")
            else:
                obligations += d["checks"]
                discharged += d["checks"]
                backends["kani/cbmc"] = backends.get("kani/cbmc", 0) + d["checks"]
                funcs.append(f"{b.file} via harness {name} (kani, full domain)")
        elif d["status"] == "FAILED":
            real = [m for m in d["msgs"] if "unwinding assertion" not in m and "is not currently supported" not in m and "unsupported" not in m.lower()]
            if not real:
                undecided.append(f"kani {name}: {d['msgs']}")
                continue
            rec = dict(backend="kani", unit=b.file, function=name, obligation="; ".join(real), where=b.file, output="; ".join(d["msgs"]))
            for draws in engine.kani_cex(eng, b):
                f = engine.replay_draws(exe, name, draws) if exe and b.native else None
                if f:
                    rec["replayed"] = f
                    break
            failed.append(rec)
        else:
            undecided.append(f"kani {name}: no result {d['msgs']}")

    # a proof is lost: look longer for an input
    if exe and (failed or undecided) and not thorough and not (native_fail or any(f.get("replayed") for f in failed)):
        f2, c2, k2, p2 = engine.native(exe, bodies, seed + 1000, P.get("second_ms", 40000))
        native_fail, native_cases, native_known = f2, native_cases + c2, native_known + k2
        undecided.extend(p2)
    known_list = load_known(pid)
    explained = []
    for k in native_known:
        explained.append(k)
    inputs = native_fail + [f["replayed"] for f in failed if f.get("replayed")]
    wall = time.time() - t0
    violations = 1 if (inputs or failed) else 0
    replay = os.path.join(VERIF, "evidence", f"replay-{pid}.json")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if violations:
        json.dump(dict(property=pid, failing_inputs=inputs, failed_obligations=failed, undecided=undecided,
                       how="bin/replay " + pid + " evidence/replay-" + pid + ".json"), open(replay, "w"), indent=1)
    nothing = not (discharged or native_cases or bounded)
    level = P.get("level", "proof")
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd="verus <unit>.rs --num-threads 8; cargo kani --harness vp_entry::k_* (generated from /repo/iOverlay/src on this run)",
               trusted_base=P.get("trusted", []) + TRUSTED, by_back_end=backends, functions_under_contract=funcs,
               solver_s=round(sum(r.solver_s for r in vres) + sum(d["time"] for d in kani_res.values()), 2),
               bounded_standins=bounded,
               replay=dict(evaluations=sum(c["runs"] for c in native_cases), cases=native_cases,
                           note="contracts evaluated on the compiled code with seeded random inputs; never counted as proved"),
               undecided=undecided, known_hits=explained)
    if level == "other" or undecided:
        cov["explanation"] = P.get("explanation", "") + (" Undecided on this run: " + " | ".join(u[:300] for u in undecided) if undecided else "")
    ev = dict(property=pid, tier=tier, seed=seed, level=(level if not undecided else "other"), coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 1), violations=violations)
    if not violations and not nothing:
        pass
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)

    print(f"{pid} {tier}: obligations {obligations}, discharged {discharged} {backends}, bounded stand-ins {len(bounded)}, replay runs {cov['replay']['evaluations']}, {wall:.1f}s")
    for u in undecided:
        print("UNDECIDED:", u[:600].replace("\n", " "))
    for k in known_list:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if violations:
        for f in failed:
            print(f"failed obligation [{f['backend']}] {f['function']}: {f['obligation']} :: {f['where'][:300]}".replace("\n", " "))
        for f in inputs:
            print(f"failing input: {f['case']}: {f['message']} :: {json.dumps(f['input'])[:500]}")
        print(f"VIOLATION property={pid} replay={replay}" + ("" if inputs else " no-failing-input-found"))
        return 1
    if nothing:
        print("nothing could be decided on this tree")
        return 2
    return 0


TRUSTED = [
    "Verus 0.2026.09.13 with its vstd axioms and Z3",
    "Kani 0.68.0 / CBMC 6.11 (checks that use it)",
    "rustc: the code Verus and Kani see is compiled as they model it",
    "tools/extract.py: the functions are cut from /repo on every run; what it changes is listed under assumptions",
]
