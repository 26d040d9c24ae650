#!/usr/bin/env python3
"""mkbug.py FILE...: writes /verif/seeded/<id>/ from a description of a planted bug.

A description is a Python file that sets id, property, needs, breaks, edits (a
list of (file, old, new)), and either demo (the text of demo.sh) or rust (the
text of a main.rs, with features a list of baokeshed features, hooks whether it needs
the verification hooks and release whether to optimize it)."""
import json, os, subprocess, sys, tempfile, shutil

RUST = r'''#!/bin/bash
# Builds and runs main.rs against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock" 2>/dev/null
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$repo", features = [%s] }
reference_impl = { path = "$repo/reference_impl" }
[workspace]
END
cd "$scratch" && %sCARGO_TARGET_DIR="$scratch/target" cargo run --offline -q%s
'''

FAR = r'''#!/bin/bash
# Interprets main.rs against the library in the current directory, on another
# processor.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock" 2>/dev/null
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$repo" }
reference_impl = { path = "$repo/reference_impl" }
[workspace]
END
unset RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME="$scratch/cache" CARGO_TARGET_DIR="$scratch/target"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
%scd "$scratch" && cargo miri run --offline -q --target %s-unknown-linux-gnu
'''

def main(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", ns["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for f, old, new in ns["edits"]:
            p = tmp + "/r/" + f
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %d occurrences of %r in %s" % (ns["id"], t.count(old), old, f))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "far" in ns:
        open(d + "/demo.sh", "w").write(FAR % (
            'export RUSTFLAGS="--cfg baokeshed_verif --cfg baokeshed_verif_state"\n' if ns.get("hooks") else "", ns["far"]))
        open(d + "/main.rs", "w").write(ns["rust"].lstrip())
    elif "rust" in ns:
        feats = ", ".join('"%s"' % f for f in ns.get("features", []))
        open(d + "/demo.sh", "w").write(RUST % (
            feats,
            'RUSTFLAGS="--cfg baokeshed_verif --cfg baokeshed_verif_state" ' if ns.get("hooks") else "",
            " --release" if ns.get("release") else ""))
        open(d + "/main.rs", "w").write(ns["rust"].lstrip())
    else:
        open(d + "/demo.sh", "w").write(ns["demo"].lstrip())
    for name, text in ns.get("files", {}).items():
        open(d + "/" + name, "w").write(text.lstrip())
    print(ns["id"])

for p in sys.argv[1:]:
    main(p)
