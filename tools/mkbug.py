#!/usr/bin/env python3
"""mkbug.py SPEC.py [...] : make, confirm and store a planted bug under /verif/seeded.

A spec file defines: ID, PROP, FILE (under iOverlay/src, where the demonstration is appended as a test module),
EDITS = [(file, old, new), ...], DEMO (text of the test module's body), NEEDS, BREAKS.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# run with cwd /repo: exit 0 when the property's example holds on this tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$PWD/iOverlay/src" "$T/src"
cp -r "$here/shim" "$T/shim"
sed -i '/^\[workspace\]/d' "$T/shim/Cargo.toml"
cp "$here/demo.toml" "$T/Cargo.toml"
cp "$here/demo.lock" "$T/Cargo.lock"
printf '\n#[cfg(test)]\nmod vp_demo {\nuse super::*;\n' >> "$T/src/@FILE@"
cat "$here/demo.rs" >> "$T/src/@FILE@"
printf '\n}\n' >> "$T/src/@FILE@"
cd "$T" || exit 3
timeout 280 cargo test --offline --lib vp_demo > "$T/log" 2>&1
rc=$?
tail -30 "$T/log"
grep -q "test result: ok. [1-9]" "$T/log" || exit 1
exit $rc
'''


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr


def make(spec):
    d = {}
    exec(open(spec).read(), d)
    out = os.path.join(V, "seeded", d["ID"])
    work = tempfile.mkdtemp(prefix="vp-bug-")
    try:
        repo = os.path.join(work, "repo")
        sh(f"git clone -q /repo {repo}", work)
        for f, old, new in d["EDITS"]:
            p = os.path.join(repo, "iOverlay/src", f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"edit anchor occurs {t.count(old)} times in {f}"
            open(p, "w").write(t.replace(old, new))
        rc, patch = sh("git diff", repo)
        tmp = os.path.join(work, "bug")
        os.makedirs(tmp)
        open(os.path.join(tmp, "patch.diff"), "w").write(patch)
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO_SH.replace("@FILE@", d["FILE"]))
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        open(os.path.join(tmp, "demo.rs"), "w").write(d["DEMO"])
        shutil.copy(os.path.join(V, "harness", "demo", "demo.toml"), os.path.join(tmp, "demo.toml"))
        shutil.copytree(os.path.join(V, "harness", "shim"), os.path.join(tmp, "shim"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        shutil.copy(os.path.join(V, "harness", "demo", "demo.lock"), os.path.join(tmp, "demo.lock"))
        json.dump(dict(property=d["PROP"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        rc, o = sh(f"bash {tmp}/demo.sh", "/repo")
        if rc != 0:
            return "demo fails on the unchanged tree:\n" + o[-1500:]
        rc, o = sh(f"bash {tmp}/demo.sh", repo)
        if rc == 0:
            return "demo passes with the bug"
        if "panicked" not in o and "FAILED" not in o:
            return "demo does not fail by assertion:\n" + o[-1500:]
        # stable tests, on a copy of the partial crate
        part = os.path.join(work, "partial")
        sh(f"cp -a /opt/vp/partial {part}", work)
        for r, _, fs in os.walk(part):
            for f in fs:
                if f.endswith((".rs", ".toml")) and "target" not in r:
                    p = os.path.join(r, f)
                    t = open(p).read()
                    if "/repo/" in t:
                        open(p, "w").write(t.replace("/repo/", repo + "/"))
        rc, o = sh(f"bash -c '. /opt/vp/env.sh; cd {part}; CARGO_TARGET_DIR={work}/tgt cargo test --lib --no-fail-fast --locked --offline -- --test-threads 8'", part)
        if rc != 0:
            return "stable tests fail with the bug: " + " ".join(x.strip() for x in o.split("\n") if x.startswith("    ") and "::tests::" in x and " at " not in x)[:400]
        # informational: the crate's other unit and integration tests, which the stable list leaves out
        full = os.path.join(work, "full")
        shutil.copytree(os.path.join(repo, "iOverlay"), full)
        shutil.copytree(os.path.join(tmp, "shim"), os.path.join(full, "shim"))
        sh("sed -i '/^\\[workspace\\]/d' shim/Cargo.toml", full)
        shutil.copy(os.path.join(tmp, "demo.toml"), os.path.join(full, "Cargo.toml"))
        shutil.copy(os.path.join(tmp, "demo.lock"), os.path.join(full, "Cargo.lock"))
        rc, o = sh(f"ulimit -v 12000000; CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR={work}/tgt2 timeout 150 cargo test --offline --lib --tests --no-fail-fast", full)
        print("   whole test suite under the shim:", "passes" if rc == 0 else "fails: " + " ".join(x.split()[1] for x in o.split("\n") if x.startswith("test ") and x.endswith("FAILED"))[:300])
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    for s in sys.argv[1:]:
        e = make(s)
        print(os.path.basename(s), "OK" if e is None else "REJECTED: " + e)
