"""Run Verus on a unit and classify what it says."""
import json, os, re, subprocess, sys, time
from extract import Repo, Unit, Structural

GENUINE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
           "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
           "possible bit shift underflow/overflow", "decreases not satisfied", "loop invariant not satisfied",
           "unreachable", "index out of bounds", "could not prove", "unable to prove post-condition of closure", "loop must have a decreases clause", "constructed value may fail")


def registry():
    base = os.path.expanduser("~/.cargo/registry/src")
    out = {}
    for d in sorted(os.listdir(base)):
        for c in sorted(os.listdir(os.path.join(base, d))):
            for n in ("i_float", "i_shape", "i_key_sort", "i_tree"):
                if re.match(re.escape(n) + r"-\d", c):
                    out[n] = os.path.join(base, d, c)
    return out


class VerusResult:
    pass


def run_unit(vx, outdir, src_root="/repo/iOverlay/src", rlimit=None, timeout=600, extra=()):
    r = VerusResult()
    r.unit = os.path.basename(vx)
    r.structural, r.genuine, r.unknown = [], [], []
    r.verified = r.errors = 0
    r.fns, r.subs, r.drops = [], [], []
    r.solver_s = 0.0
    r.breakdown = {}
    r.cmd = ""
    t0 = time.time()
    repo = Repo(src_root, registry())
    try:
        u = Unit(vx, repo)
    except Structural as e:
        r.structural.append(str(e))
        r.wall = time.time() - t0
        return r
    os.makedirs(outdir, exist_ok=True)
    rs = os.path.join(outdir, os.path.basename(vx).replace(".vx", ".rs"))
    text = u.text()
    open(rs, "w").write(text)
    r.file, r.fns, r.subs, r.drops = rs, u.fns, u.subs, sorted(u.log)
    r.assumptions = [a for a in scan_assumptions(text) if '/* imported */' not in a] + [f'contracts of {n} are used here and discharged in unit {n}' for n in u.imports]
    cmd = ["verus", rs, "--output-json", "--time-expanded", "--multiple-errors", "4", "--", "--error-format=json"]
    cmd = ["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4", "--num-threads", "8"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra)
    r.cmd = " ".join(cmd)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=outdir)
    except subprocess.TimeoutExpired:
        r.unknown.append(dict(msg=f"verus timed out after {timeout}s", fn=None))
        r.wall = time.time() - t0
        return r
    r.rc = p.returncode
    r.stderr = p.stderr
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
    except Exception:
        js = {}
    vr = js.get("verification-results", {})
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    try:
        smt = js["times-ms"]["smt"]
        r.solver_s = smt.get("total", 0) / 1000.0
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.breakdown[f["function"]] = (f.get("time", 0), f.get("success"), f.get("rlimit", 0))
    except Exception:
        pass
    for ln in p.stderr.split("\n"):
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to") or msg.startswith("verification results"):
            continue
        sp = d.get("spans", [])
        lines = [s["line_start"] for s in sp if s.get("file_name", "").endswith(os.path.basename(rs))]
        fn = None
        for l in lines:
            for f in u.fns:
                if f["out"][0] <= l <= f["out"][1]:
                    fn = f["name"]
        labels = "; ".join(f"{s.get('label') or ''} @ {s['line_start']}: " + " ".join(x["text"].strip() for x in s.get("text", []))[:160] for s in sp)
        rec = dict(msg=msg, fn=fn, where=labels, rendered=d.get("rendered", ""))
        low = msg.lower()
        if "resource limit" in low or "rlimit" in low or "timed out" in low:
            r.unknown.append(rec)
        elif any(g in low for g in GENUINE):
            miss = [m for f in u.fns if f["name"] == fn for m in f["missing"]]
            if fn is None:
                # a lemma of the unit, not a function of the source: says nothing about the code
                r.unknown.append(rec)
            elif miss:
                # the annotation lost its place: the failed obligation says nothing about the code
                rec["missing"] = miss
                r.unknown.append(rec)
            else:
                r.genuine.append(rec)
        else:
            r.structural.append(msg + " [" + labels + "]")
    if p.returncode != 0 and not (r.structural or r.genuine or r.unknown):
        r.structural.append("verus exited with %d: %s" % (p.returncode, p.stderr[-400:]))
    if p.returncode == 0 and r.verified == 0:
        r.structural.append("verus reported zero verified functions")
    r.wall = time.time() - t0
    return r


def scan_assumptions(text):
    out = []
    for i, ln in enumerate(text.split("\n"), 1):
        s = ln.strip()
        if re.search(r"\b(assume\s*\(|admit\s*\(|external_body|assume_specification|axiom fn|external_fn_specification|external_type_specification)", s):
            out.append(s[:160])
    return out


if __name__ == "__main__":
    src = os.environ.get("VX_SRC", "/repo/iOverlay/src")
    res = run_unit(sys.argv[1], os.environ.get("VX_OUT", "/tmp/vxout"), src, extra=sys.argv[2:])
    for s in res.structural:
        print("STRUCTURAL", s)
    for g in res.genuine:
        print("FAILED", g["fn"], g["rendered"] )
    for g in res.unknown:
        print("UNKNOWN", g["fn"], g["msg"], g.get("rendered", ""))
    for f in res.fns:
        for m in f["missing"]:
            print("MISSING", m)
    print("verified", res.verified, "errors", res.errors, "solver", res.solver_s, "wall", round(res.wall, 1), "drops", res.drops)
    slow = sorted(res.breakdown.items(), key=lambda x: -x[1][0])[:6]
    print(slow)
