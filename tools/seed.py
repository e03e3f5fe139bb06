#!/usr/bin/env python3
"""seed.py ID : (re)build /verif/seeded/ID/patch.diff from tools/seeds/ID.py and confirm it in a scratch copy.
The spec module defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs), DEPS (extra Cargo.toml dependency lines)."""
import importlib.util, json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedwt"
DEMO_SH = '''#!/bin/bash
# Runs the program beside this file against the crates of the tree in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here/main.rs" "$d/src/main.rs"
@PRE@cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEPS@
[workspace]
@WS@E
export RUSTUP_TOOLCHAIN=nightly-2025-03-27 CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export PATH=/root/.cargo/bin:$PATH
export REPO="$repo"
cd "$d" || exit 3
cargo build --offline --quiet || exit 3
SCRATCH="$d/scratch" timeout 120 "$d/target/debug/demo"
'''
IODEPS = '''jstprove-io = { path = "$repo/rust/jstprove_io" }
anyhow = "1"
serde = { version = "1", features = ["derive"] }
rmp-serde = "1"
zstd = "0.13"'''
ONNXDEPS = '''jstprove-onnx = { path = "$repo/rust/jstprove_onnx" }
anyhow = "1"
prost = "0.13"
'''
ONNXPRE = r'''
#![allow(dead_code, unused_imports)]
use jstprove_onnx::graph::LayerGraph;
use jstprove_onnx::parser::{AttrValue, IoSpec, ParsedModel, ParsedNode, TensorData};
use jstprove_onnx::shape_inference::infer_all_shapes;
use std::collections::HashMap;
fn io(n: &str, shape: &[i64]) -> IoSpec { IoSpec { name: n.into(), shape: shape.to_vec(), elem_type: 1 } }
fn ten(n: &str, dims: &[i64], ints: &[i64], floats: &[f64]) -> (String, TensorData) {
    (n.into(), TensorData { name: n.into(), dims: dims.to_vec(), data_type: if ints.is_empty() { 1 } else { 7 }, float_data: floats.to_vec(), int_data: ints.to_vec() })
}
fn at(a: &[(&str, AttrValue)]) -> HashMap<String, AttrValue> { a.iter().map(|(k, v)| (k.to_string(), v.clone())).collect() }
fn node(op: &str, i: &[&str], o: &[&str], a: &[(&str, AttrValue)]) -> ParsedNode {
    ParsedNode { name: format!("{op}_{}", o[0]), op_type: op.into(), inputs: i.iter().map(|s| s.to_string()).collect(), outputs: o.iter().map(|s| s.to_string()).collect(), attributes: at(a), domain: String::new() }
}
fn model(nodes: Vec<ParsedNode>, inits: Vec<(String, TensorData)>, inputs: Vec<IoSpec>, outs: &[&str]) -> ParsedModel {
    ParsedModel { nodes, initializers: inits.into_iter().collect(), inputs, outputs: outs.iter().map(|o| io(o, &[])).collect(), opset_version: 17 }
}
fn shape(m: &ParsedModel, out: &str) -> Option<Vec<usize>> {
    let g = LayerGraph::from_parsed(m).ok()?;
    infer_all_shapes(m, &g).ok()?.get(out).cloned()
}
fn ints(v: &[i64]) -> AttrValue { AttrValue::Ints(v.to_vec()) }
fn check<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want { println!("{what}: got {got:?}, expected {want:?}"); std::process::exit(1); }
}
'''
UTILDEPS = '''utils = { path = "$repo/prover/utils", features = ["profile"] }
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(id, full):
    sp = importlib.util.spec_from_file_location("m", f"{V}/tools/seeds/{id}.py")
    m = importlib.util.module_from_spec(sp)
    m.IODEPS, m.ONNXDEPS, m.UTILDEPS, m.ONNXPRE = IODEPS, ONNXDEPS, UTILDEPS, ONNXPRE
    sys.path.insert(0, V + "/tools")
    import seedlib
    vars(m).update({k: x for k, x in vars(seedlib).items() if k.isupper()})
    sp.loader.exec_module(m)
    o = f"{V}/seeded/{id}"
    os.makedirs(o, exist_ok=True)
    os.makedirs(S, exist_ok=True)
    sh(f"rsync -a --delete --exclude /target /repo/ {S}/repo/")
    for f, old, new in m.EDITS:
        p = f"{S}/repo/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(f"{id}: {s.count(old)} matches in {f}: {old!r}")
            return 1
        open(p, "w").write(s.replace(old, new))
    d = sh(f"git -C {S}/repo diff").stdout
    open(o + "/patch.diff", "w").write(d)
    open(o + "/main.rs", "w").write(m.DEMO.lstrip())
    open(o + "/demo.sh", "w").write(DEMO_SH.replace("@DEPS@", getattr(m, "DEPS", IODEPS).strip()).replace("@PRE@", getattr(m, "PRE", "")).replace("@WS@", getattr(m, "WS", "")))
    for f, t in getattr(m, "FILES", {}).items():
        open(f"{o}/{f}", "w").write(t.lstrip())
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(o + "/meta.json", "w"), indent=1)
    bad = sh(f"cd {S}/repo && bash {o}/demo.sh")
    good = sh(f"cd /repo && bash {o}/demo.sh")
    print(f"{id}: demo clean rc={good.returncode} mutated rc={bad.returncode}")
    if good.returncode:
        print(good.stdout[-1500:])
    if bad.returncode in (0, 3):
        print(bad.stdout[-1500:])
    if full and not good.returncode and bad.returncode not in (0, 3):
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        try:
            print(sh(f"git -C /repo apply {o}/patch.diff").stdout)
            print(sh("bash /opt/vp/build.sh").returncode, "build;", sh("bash /opt/vp/test.sh /tmp/seed_t.json").stdout.strip().splitlines()[-1])
            r = sh(f"python3 {V}/check.py {m.PROPERTY}")
            print("check rc", r.returncode, r.stdout.strip()[-600:])
        finally:
            sh("git -C /repo checkout -- .")
    return 0


if __name__ == "__main__":
    full = "-f" in sys.argv
    for a in sys.argv[1:]:
        if a != "-f":
            main(a, full)
