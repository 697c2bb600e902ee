#!/usr/bin/env python3
"""Generate and confirm the planted bugs in /verif/seeded (see DESIGN.md).
usage: plant.py [--confirm] [--checks] [ID ...]
  --confirm  in a scratch copy of /repo: demo passes, patch applies, builds, stable tests pass, demo fails
Definitions live in tools/bugs_*.py (bug(id, property, edits, needs, breaks, demo)).
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
B = []
def bug(id, prop, edits, needs, breaks, demo, crate="root"):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, crate=crate))

for f in sorted(os.listdir(os.path.join(HERE, "tools"))):
    if f.startswith("bugs_") and f.endswith(".py"):
        exec(open(os.path.join(HERE, "tools", f)).read())

DEMO = {"root": r'''#!/bin/bash
# builds a small program against the iodyn crate in the current directory; exit 0 when it behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
iodyn = { path = "$repo" }
adapton = "0.3"
rand = "0.3"
[workspace]
END
unset RUSTC RUSTFLAGS RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
cd "$d" && cargo build -q --offline --locked > log 2>&1 || { cat log; find "$d" -delete; exit 3; }
ulimit -v 8000000
timeout 120 ./target/debug/demo
rc=$?
find "$d" -delete
exit $rc
''', "eval": r'''#!/bin/bash
# builds a small program against the eval crate under the current directory; exit 0 when it behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
[dependencies]
iodyn = { path = "$repo" }
eval = { path = "$repo/eval" }
adapton = "0.3"
time = "0.1"
rand = "0.3"
[workspace]
END
unset RUSTFLAGS RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
export RUSTC=/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc
cd "$d" && cargo build -q --offline --locked > log 2>&1 || { cat log; find "$d" -delete; exit 3; }
ulimit -v 8000000
timeout 120 ./target/debug/demo
rc=$?
find "$d" -delete
exit $rc
'''}

PRELUDE = {"root": '''#![allow(unused)]
use std::rc::Rc;
use adapton::engine::*;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::*;
fn nm(i: usize) -> Option<Name> { Some(name_of_usize(i)) }
fn elems<M: RazMeta<u32>>(t: &RazTree<u32, M>) -> Vec<u32> {
    t.clone().fold_lr(vec![], Rc::new(|mut a: Vec<u32>, e: &u32| { a.push(*e); a }))
}
fn shape<M: RazMeta<u32>>(t: &RazTree<u32, M>) -> String {
    t.clone().fold_up_gauged(Rc::new(|v: &Vec<u32>| format!("{:?}", v)),
        Rc::new(|l: String, lv: u32, _n: Option<Name>, r: String| format!("({} {} {})", l, lv, r))).unwrap_or_default()
}
/// sequence with archive points: elements as text, archive points as <level> or <level:name>
fn seq<M: RazMeta<u32>>(t: &RazTree<u32, M>) -> String {
    t.clone().fold_lr_meta(String::new(), Rc::new(|a: String, e: &u32| format!("{}{} ", a, e)),
        Rc::new(|a: String, (l, n): (u32, Option<Name>)| match n { None => format!("{}<{}> ", a, l), Some(n) => format!("{}<{}:{:?}> ", a, l, n) }))
}
fn tname(i: usize) -> Name { name_pair(name_of_usize(i), name_of_string(String::from("tree"))) }
''', "eval": '''#![allow(unused)]
extern crate iodyn; extern crate eval; extern crate adapton; extern crate rand; extern crate time;
use std::rc::Rc;
use adapton::engine::*;
'''}
ROOTLOCK = lambda: open(os.path.join(HERE, "harness", "Cargo.lock")).read().replace('name = "mon"', 'name = "demo"')
def sortlock(s):
    head, *pk = s.split("[[package]]\n")
    return head + "".join("[[package]]\n" + p for p in sorted(p.rstrip("\n") + "\n\n" for p in pk)).rstrip("\n") + "\n"

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def generate(b):
    d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in b["edits"]:
        t = files.get(f) or sh(["git", "-C", "/repo", "show", "HEAD:" + f]).stdout
        assert t.count(old) == 1, (b["id"], f, old, t.count(old))
        files[f] = t.replace(old, new)
    patch = ""
    with tempfile.TemporaryDirectory() as td:
        for f, t in files.items():
            for side, txt in (("a", sh(["git", "-C", "/repo", "show", "HEAD:" + f]).stdout), ("b", t)):
                p = os.path.join(td, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
            r = sh(["diff", "-u", "a/" + f, "b/" + f], cwd=td).stdout
            patch += "diff --git a/%s b/%s\n" % (f, f) + "\n".join(l.split("\t")[0] if l[:4] in ("--- ", "+++ ") else l for l in r.split("\n")[:2]) + "\n" + "\n".join(r.split("\n")[2:])
    w = lambda n, t: open(os.path.join(d, n), "w").write(t)
    w("patch.diff", patch)
    w("demo.rs", PRELUDE[b["crate"]] + b["demo"].strip() + "\n")
    w("demo.sh", DEMO[b["crate"]]); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    w("demo.lock", sortlock(ROOTLOCK()) if b["crate"] == "root" else sortlock(open(os.path.join(HERE, "evalharness", "Cargo.lock")).read().replace('name = "evalmon"', 'name = "demo"')))
    w("meta.json", json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")

BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def confirm(b):
    """run in a private mount of /repo? tests run against /repo itself: use a scratch copy with its own target"""
    d = os.path.join(SEED, b["id"])
    wt = "/tmp/plant_wt_%s" % b["id"]
    if os.path.exists(wt): shutil.rmtree(wt)
    os.makedirs(wt)
    sh("git -C /repo archive HEAD | tar -x -C %s" % wt, shell=True)
    for a, c in (("/repo/Cargo.lock", wt + "/Cargo.lock"), ("/repo/eval/Cargo.lock", wt + "/eval/Cargo.lock")): shutil.copy(a, c)
    try:
        r = sh(["bash", d + "/demo.sh"], cwd=wt)
        if r.returncode != 0: return "demo fails on the clean tree (%d): %s" % (r.returncode, r.stdout[-1500:])
        r = sh(["git", "apply", "--unsafe-paths", "--directory=" + wt, d + "/patch.diff"], cwd="/")
        if r.returncode != 0: 
            r = sh("patch -p1 < %s/patch.diff" % d, shell=True, cwd=wt)
            if r.returncode: return "patch: " + r.stdout
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
        out = sh("RUSTUP_TOOLCHAIN=stable timeout 300 cargo test --no-fail-fast --offline -- --test-threads 8", shell=True, cwd=wt, env=env)
        if "error: could not compile" in out.stdout: return "does not build: " + out.stdout[-1500:]
        ok = out.stdout.count("... ok")
        bad = [l for l in out.stdout.split("\n") if l.endswith("... FAILED")]
        o2 = sh("RUSTUP_TOOLCHAIN=1.75.0 RUSTC=/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc timeout 600 cargo test --lib --examples --no-fail-fast --offline -- --test-threads 8", shell=True, cwd=wt + "/eval", env=env)
        if "could not compile" in o2.stdout: return "eval does not build: " + o2.stdout[-1500:]
        bad += [l for l in o2.stdout.split("\n") if l.endswith("... FAILED") and "test_ref_impl" in l]
        if bad or ok < 25: return "existing tests notice: %s (%d ok) %s" % (bad, ok, "" if bad else out.stdout[-800:])
        r = sh(["bash", d + "/demo.sh"], cwd=wt)
        if r.returncode == 0: return "demo passes with the patch"
        if r.returncode == 3: return "demo does not build with the patch: " + r.stdout[-800:]
        return None
    finally:
        shutil.rmtree(wt)

def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    sel = [b for b in B if not ids or b["id"] in ids]
    for b in sel: generate(b)
    if "--confirm" in sys.argv:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            for b, r in zip(sel, ex.map(confirm, sel)):
                print(b["id"], "OK" if r is None else "REJECT " + r, flush=True)
main()
