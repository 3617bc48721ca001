#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from a specification and confirms it in a scratch copy (not part of any check)

A specification defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], and MAIN (a Rust program, run against the
crate) or SH (a shell script); FEATURES and RUN (how to start the program) are optional."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# %s
set -u
export PATH=/root/.cargo/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
'''
LIB = '''d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
walky = { path = "$repo"%s }
%s
[workspace]
EOF
cd "$d" || exit 2
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true
cargo build --offline -q || exit 2
%s
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for f in sys.argv[1:]:
    s = {}
    exec(open(f).read(), s)
    d = f"{V}/seeded/{s['ID']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = f"/tmp/sw-{s['ID']}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {w}; git -C {w} checkout -q -- .")
    for file, old, new in s["EDITS"]:
        t = open(f"{w}/{file}").read()
        assert t.count(old) == 1, (file, t.count(old), old)
        open(f"{w}/{file}", "w").write(t.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {w} diff").stdout)
    if "MAIN" in s:
        open(f"{d}/main.rs", "w").write(s["MAIN"])
        body = LIB % (', features = ["mpi"]' if s.get("MPI") else "", s.get("DEPS", ""), s.get("RUN", 'timeout 120 "$d/target/debug/demo"'))
    else:
        body = s["SH"]
    open(f"{d}/demo.sh", "w").write(HEAD % s["BREAKS"] + body)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    # the scratch copy is used in place of /repo
    r = sh("bash -c '. /opt/vp/env.sh; cd %s; cargo test --workspace --no-run --offline && cargo build --workspace --offline && cargo check --workspace --all-features --all-targets --offline --target-dir target/all-features && cargo build --offline --manifest-path utils/gen_matrix_fast/Cargo.toml --target-dir target/gen_matrix_fast'" % w)
    ok = r.returncode == 0
    if not ok: print(r.stdout[-3000:])
    t = sh("bash -c '. /opt/vp/env.sh; cd %s; cargo test --workspace --no-fail-fast --offline -- --test-threads 8'" % w)
    passed = set(l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("ok"))
    stable = [x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    miss = [x for x in stable if x not in passed]
    b = sh(f"cd {w} && timeout 300 bash {d}/demo.sh")
    u = sh(f"cd /repo && timeout 300 bash {d}/demo.sh")
    good = ok and not miss and b.returncode != 0 and u.returncode == 0
    print(("OK  " if good else "BAD "), s["ID"], "build", ok, "missing", miss[:5], "demo with patch", b.returncode, "without", u.returncode)
    print("   with:", b.stdout[-300:].strip().replace("\n", " | "))
    if u.returncode: print("   without:", u.stdout[-600:])
    shutil.rmtree(w)
    if not good: shutil.rmtree(d)
