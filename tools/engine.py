"""Generate, from /repo's current sources, the crate the harness bodies run in; build it; run it natively and under Kani.

The generated crate is a verbatim copy of iOverlay/src. What is changed, on every run, mechanically:
  * `mod x;` declarations become `pub mod x;` (so a harness can name private modules),
  * one module `vp` is appended to each source file a harness needs private items of,
  * the dependency i_shape is re-exported through a shim that adds the one trait its 1.10.0 release lacks
    (int::dedup::DedupContour, needed by core/extract.rs only).
Nothing else is touched; no function body is edited.
"""
import json, os, re, shutil, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HARN = os.path.join(VERIF, "harness")


class Body:
    pass


def parse_harness(path):
    """-> (appends {file: text}, [Body])"""
    appends, bodies = {}, []
    cur = None
    for ln in open(path):
        s = ln.strip()
        if s.startswith("//@"):
            d = s[3:].split()
            if d[0] == "append":
                cur = d[1]
                appends.setdefault(cur, "")
            elif d[0] == "body":
                b = Body()
                b.name, b.file = d[1], cur
                b.weight, b.kani, b.unwind, b.bound, b.native, b.solver, b.thorough = 1, False, None, None, True, None, False
                for o in d[2:]:
                    k, _, v = o.partition("=")
                    if k == "weight":
                        b.weight = int(v)
                    elif k == "kani":
                        b.kani = True
                    elif k == "unwind":
                        b.unwind = int(v)
                    elif k == "bounded":
                        b.bound = v.replace("_", " ")
                    elif k == "nonative":
                        b.native = False
                    elif k == "solver":
                        b.solver = v
                    elif k == "thorough":
                        b.thorough = True
                    else:
                        raise ValueError(o)
                bodies.append(b)
            else:
                raise ValueError(s)
            continue
        if cur:
            appends[cur] += ln
    return appends, bodies


def modpath(f):
    f = f[:-3]
    if f == "lib":
        return "crate"
    if f.endswith("/mod"):
        f = f[:-4]
    return "crate::" + f.replace("/", "::")


def generate(dst, src_root, harness_paths):
    """dst/eng, dst/shim. Returns bodies."""
    eng = os.path.join(dst, "eng")
    if os.path.exists(eng):
        shutil.rmtree(os.path.join(eng, "src"), ignore_errors=True)
    os.makedirs(eng, exist_ok=True)
    shutil.copytree(src_root, os.path.join(eng, "src"))
    shim = os.path.join(dst, "shim")
    if not os.path.exists(shim):
        shutil.copytree(os.path.join(HARN, "shim"), shim)
    for dp, _, fs in os.walk(os.path.join(eng, "src")):
        for f in fs:
            if f in ("mod.rs", "lib.rs"):
                p = os.path.join(dp, f)
                t = open(p).read()
                t2 = re.sub(r"^(\s*)(?:pub(?:\s*\([^)]*\))?\s+)?mod\s+(\w+)\s*;", r"\1pub mod \2;", t, flags=re.M)
                if t2 != t:
                    open(p, "w").write(t2)
    appends, bodies = {}, []
    for h in harness_paths:
        a, b = parse_harness(h)
        for k, v in a.items():
            appends[k] = appends.get(k, "") + v
        bodies += b
    for f, text in appends.items():
        p = os.path.join(eng, "src", f)
        if f == "lib.rs":
            p2 = os.path.join(eng, "src", "vp_lib.rs")
            open(p2, "w").write("#![allow(warnings)]\nuse crate::vp_util::Src;\nuse crate::vp_check;\n" + text)
            continue
        if not os.path.exists(p):
            raise FileNotFoundError(f"harness target {f} does not exist")
        with open(p, "a") as o:
            o.write("\n#[allow(warnings)]\npub mod vp {\nuse super::*;\nuse crate::vp_util::Src;\nuse crate::vp_check;\n" + text + "\n}\n")
    shutil.copy(os.path.join(HARN, "engine", "vp_util.rs"), os.path.join(eng, "src", "vp_util.rs"))
    lib = open(os.path.join(eng, "src", "lib.rs")).read()
    lib += "\n#[allow(warnings)]\npub mod vp_util;\n"
    if "lib.rs" in appends:
        lib += "pub mod vp_lib;\n"
    lib += "#[allow(warnings)]\npub mod vp_entry {\n"
    natives = []
    for b in bodies:
        path = ("crate::vp_lib" if b.file == "lib.rs" else modpath(b.file) + "::vp") + "::" + b.name
        if b.kani:
            lib += f"    crate::vp_proof!(k_{b.name}, {path}" + (f", unwind {b.unwind}" if b.unwind else "") + ");\n"
        if b.native:
            natives.append(f'        crate::vp_util::native::Case {{ name: "{b.name}", body: {path}::<crate::vp_util::native::Native>, weight: {b.weight} }},\n')
    lib += "    #[cfg(not(kani))]\n    pub static CASES: &[crate::vp_util::native::Case] = &[\n" + "".join(natives) + "    ];\n}\n"
    open(os.path.join(eng, "src", "lib.rs"), "w").write(lib)
    open(os.path.join(eng, "src", "vp_main.rs"), "w").write("fn main() { #[cfg(not(kani))] i_overlay::vp_util::native::main(i_overlay::vp_entry::CASES); }\n")
    open(os.path.join(eng, "Cargo.toml"), "w").write(open(os.path.join(HARN, "engine", "Cargo.toml.in")).read().replace("@SHIM@", shim))
    shutil.copy(os.path.join(HARN, "engine", "Cargo.lock.seed"), os.path.join(eng, "Cargo.lock"))
    return eng, bodies


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build(eng, timeout=400):
    t0 = time.time()
    try:
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", "vp_replay"], cwd=eng, env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "cargo build timed out", time.time() - t0
    exe = os.path.join(eng, "target", "debug", "vp_replay")
    return (exe if p.returncode == 0 else None), p.stderr, time.time() - t0


def _run(cmd, timeout):
    try:
        p = subprocess.run(["bash", "-c", "ulimit -v 16000000; exec \"$@\"", "x"] + cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""


def native(exe, bodies, seed, ms, timeout=600):
    """Run every native body. One process per body, in parallel. -> (failures, cases, known)"""
    from concurrent.futures import ThreadPoolExecutor
    fails, cases, known = [], [], []

    def one(b):
        rc, out, err = _run([exe, "--seed", str(seed), "--ms", str(ms), "--only", b.name], timeout)
        f, c, k = [], [], []
        for ln in out.split("\n"):
            if ln.startswith("VPFAIL "):
                f.append(json.loads(ln[7:]))
            elif ln.startswith("VPCASE "):
                j = json.loads(ln[7:])
                if j["case"] == b.name:
                    c.append(j)
            elif ln.startswith("VPKNOWN "):
                k.append(ln[8:])
        # a failure counts only if its recorded draws fail again (the engine may be run with hash maps and threads: several tries)
        kept = [j for j in f if not j.get("draws") or any(replay_draws(exe, b.name, j["draws"]) for _ in range(20))]
        if len(kept) < len(f):
            return kept, c, k, f"a failure of {b.name} did not repeat: {f[0]['message'][:200]}"
        if rc not in (0, 1) and not f:
            # crashed (abort, stack overflow, out of memory): find the seed
            rc2, out2, err2 = _run([exe, "--seed", str(seed), "--ms", str(ms), "--only", b.name, "--trace"], timeout)
            tr = [l for l in out2.split("\n") if l.startswith("VPTRACE ")]
            sd = int(tr[-1].split()[2]) if tr else None
            notes = {}
            if sd is not None:
                rc3, out3, err3 = _run([exe, "--only", b.name, "--one-seed", str(sd), "--trace"], 60)
                if rc3 in (0,):
                    return f, c, k + [], f"crash of {b.name} (rc {rc}) did not repeat"
                for l in out3.split("\n"):
                    if l.startswith("VPNOTE "):
                        a, _, v = l[7:].partition(" = ")
                        notes[a] = v
                err2 = err3 or err2
            f.append({"case": b.name, "seed": sd, "message": f"process ended with {rc}: {err2[-300:]}", "input": notes, "draws": []})
        return f, c, k, None

    probs = []
    with ThreadPoolExecutor(8) as ex:
        for f, c, k, pr in ex.map(one, [b for b in bodies if b.native]):
            fails += f
            cases += c
            known += k
            if pr:
                probs.append(pr)
    return fails, cases, known, probs


def kani(eng, bodies, timeout=700, jobs=8):
    """Run the Kani harnesses. -> ({body name: dict}, problem or None, seconds)"""
    hs = [b for b in bodies if b.kani]
    if not hs:
        return {}, None, 0.0
    t0 = time.time()
    cmd = ["cargo", "kani", "--lib", "--no-default-features"]
    for b in hs:
        cmd += ["--harness", "vp_entry::k_" + b.name]
    cmd += ["--exact", "--output-format", "terse", "-j", str(jobs)]
    prob = None
    p = subprocess.Popen(cmd, cwd=eng, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        prob = f"cargo kani stopped after {timeout} s"
    res = parse_kani(out)
    r = {}
    for b in hs:
        d = res.get("vp_entry::k_" + b.name)
        r[b.name] = d or dict(status="none", checks=0, failed=0, msgs=[], cover=None, time=0.0)
    if not res and not prob:
        prob = "cargo kani gave no result: " + "\n".join(l for l in out.split("\n") if "error" in l)[:1500]
    return r, prob, time.time() - t0


def parse_kani(out):
    res, cur, active = {}, {}, None
    for ln in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", ln)
        if m:
            t = m.group(1) or "0"
            cur[t] = m.group(2)
            res[m.group(2)] = dict(status="none", checks=0, failed=0, msgs=[], cover=None, time=0.0)
            active = t
            continue
        m = re.match(r"Thread (\d+): ", ln)
        if m:
            active = m.group(1)
            ln = ln[m.end():]
        if active is None or active not in cur:
            continue
        d = res[cur[active]]
        m = re.search(r"\*\* (\d+) of (\d+) failed", ln)
        if m:
            d["failed"], d["checks"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", ln)
        if m:
            d["cover"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", ln)
        if m:
            d["msgs"].append(m.group(1))
        m = re.match(r"VERIFICATION:- (\w+)", ln)
        if m:
            d["status"] = m.group(1)
        m = re.match(r"Verification Time: ([\d.]+)s", ln)
        if m:
            d["time"] = float(m.group(1))
        if "CBMC timed out" in ln or "out of memory" in ln.lower():
            d["msgs"].append(ln.strip())
            d["status"] = "none"
    return res


def kani_cex(eng, body, timeout=300):
    """Concrete values of a failing harness, as hex draws, or None."""
    cmd = ["cargo", "kani", "--lib", "--no-default-features", "--harness", "vp_entry::k_" + body.name, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"]
    try:
        p = subprocess.run(cmd, cwd=eng, env=env(), capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return []
    outs = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", p.stdout, re.S):
        vals = re.findall(r"vec!\[([\d,\s]*)\]", m.group(1))
        outs.append([bytes(int(x) for x in v.replace(" ", "").split(",") if x).hex() for v in vals])
    return outs


def replay_draws(exe, name, draws):
    rc, out, err = _run([exe, "--case", name, "--draws", ",".join(draws)], 60)
    for ln in out.split("\n"):
        if ln.startswith("VPFAIL "):
            return json.loads(ln[7:])
    if rc not in (0, 1):
        return {"case": name, "seed": None, "message": f"process ended with {rc}: {err[-300:]}", "input": {}, "draws": draws}
    return None
