#!/usr/bin/env python3
"""mkseed.py ID PROPERTY KIND SPEC.json DEMO...

Makes /verif/seeded/ID from SPEC.json = {"edits": [[file, old, new], ...], "needs": ..., "what_it_breaks": ...}
and the demonstration's source: KIND rust (main.rs), circ (main.rs) or ts (main.mjs), and confirms in a
scratch copy that the change builds, passes the tests, and that the demo tells the two apart."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
sid, prop, kind, spec, demo = sys.argv[1:6]
spec = json.load(open(spec))
S = f"{V}/seeded/{sid}"
shutil.rmtree(S, ignore_errors=True)
os.makedirs(S)
T = tempfile.mkdtemp(prefix="mkseed-")
R = f"{T}/repo"
try:
    subprocess.check_call(["cp", "-a", "/repo", R])
    for f, old, new in spec["edits"]:
        p = f"{R}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    open(f"{S}/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(f"{S}/meta.json", "w"), indent=1)
    if kind in ("rust", "circ"):
        w = f"{S}/ws"
        os.makedirs(f"{w}/demo/src")
        if kind == "rust":
            members = ["shims/*", "sut/*", "refm", "refv", "demo"]
            shutil.copytree(f"{V}/rs/shims", f"{w}/shims")
            for m in ["secq256k1", "spartan", "poseidon", "circuit_reader", "spartan_wasm", "spartan_int"]:
                shutil.copytree(f"{V}/rs/sut/{m}", f"{w}/sut/{m}")
            for m in ["refm", "refv"]:
                shutil.copytree(f"{V}/rs/{m}", f"{w}/{m}")
            deps = "\n".join(f'{a} = {{ path = "../{b}" }}' for a, b in [("secq256k1", "sut/secq256k1"), ("libspartan", "sut/spartan"), ("poseidon", "sut/poseidon"), ("circuit_reader", "sut/circuit_reader"), ("spartan_wasm", "sut/spartan_wasm"), ("spartan_int", "sut/spartan_int"), ("refm", "refm"), ("refv", "refv"), ("merlin", "shims/merlin"), ("getrandom", "shims/getrandom")])
            deps = deps.replace('libspartan = {', 'libspartan = { package = "spartan",') + '\nbincode = "1"\nff = "0.12.0"\ngroup = "0.12.0"\nrand_core = { version = "0.6", features = ["getrandom"] }\nsubtle = "2.4"\nserde = { version = "1", features = ["derive"] }\n'
            patch = '[patch.crates-io]\nserdect = { path = "shims/serdect" }\ngetrandom = { path = "shims/getrandom" }\n'
        else:
            members = ["refm", "circ", "demo"]
            for m in ["refm", "circ"]:
                shutil.copytree(f"{V}/rs/{m}", f"{w}/{m}")
            deps = 'circ = { path = "../circ" }\nrefm = { path = "../refm" }\n'
            patch = ""
        open(f"{w}/Cargo.toml", "w").write(f'[workspace]\nresolver = "2"\nmembers = {json.dumps(members)}\n[profile.release]\nopt-level = 2\ndebug = 0\n' + patch)
        shutil.copy(f"{V}/rs/Cargo.lock", f"{w}/Cargo.lock")
        open(f"{w}/demo/Cargo.toml", "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n{deps}')
        shutil.copy(demo, f"{w}/demo/src/main.rs")
        run = '''grep -rl '/repo/' --include=Cargo.toml --include='*.rs' . | xargs -r sed -i "s#/repo/#$R/#g"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS="--cap-lints allow" cargo run --release --offline -q -p demo
'''
    else:
        os.makedirs(f"{S}/ws")
        for f in ["lib.mjs", "ref.mjs"]:
            shutil.copy(f"{V}/ts/{f}", f"{S}/ws/{f}")
        shutil.copytree(f"{V}/ts/shims", f"{S}/ws/shims")
        shutil.copy(demo, f"{S}/ws/main.mjs")
        run = '''env -u NAPI_SUT TS_LIB_ROOT="$R/packages/lib" node main.mjs
'''
    open(f"{S}/demo.sh", "w").write('''#!/bin/bash
# Run in /repo: exits 0 if the behaviour is right, nonzero if it is not.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -a "$D/ws" "$T/ws"
cd "$T/ws" || exit 3
''' + run)
    os.chmod(f"{S}/demo.sh", 0o755)
    # the change builds and passes the tests (in the copy)
    clean = subprocess.run(["bash", f"{S}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run(["bash", f"{S}/demo.sh"], cwd=R, capture_output=True, text=True)
    print("clean demo:", clean.returncode, clean.stderr[-1500:] if clean.returncode else "")
    print("patched demo:", bad.returncode, (bad.stdout + bad.stderr)[-600:])
    ok = clean.returncode == 0 and bad.returncode != 0 and "error: could not compile" not in bad.stderr
    if any(f.endswith(".rs") for f, _, _ in spec["edits"]):
        subprocess.check_call(["git", "-C", "/repo", "apply", f"{S}/patch.diff"])
        try:
            b = subprocess.run("bash /opt/vp/build.sh", shell=True, capture_output=True, text=True)
            t = subprocess.run(f"bash /opt/vp/test.sh {T}/out.json", shell=True, capture_output=True, text=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        print("build:", b.returncode, "tests:", [l for l in t.stdout.splitlines() if l.startswith("test result")])
        ok = ok and b.returncode == 0 and t.returncode == 0
    print("OK" if ok else "NOT KEPT", sid)
    if not ok:
        shutil.rmtree(S)
        sys.exit(1)
finally:
    shutil.rmtree(T)
