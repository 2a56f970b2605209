#!/usr/bin/env python3
"""Writes seeded/<id>/ from the specifications below: seeds.py gen [id..]; seeds.py test [id..] applies each
to /repo, runs the stable tests, the demo and the property's quick check, and undoes it."""
import os, subprocess, sys, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
P = "src/parser.rs"
DEMO = r'''#!/bin/bash
# run with cwd = the repository
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rphtml = { path = "$repo" }
[workspace]
EOF
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline --quiet
'''
PRE = '''#![allow(unused)]
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::parser::*;
fn p(s: &str, f: impl Fn(&mut ParseOptions)) -> DocHolder {
    let mut o = ParseOptions::default(); f(&mut o);
    Doc::parse(s, o).unwrap_or_else(|e| panic!("{:?} rejected: {}", s, e))
}
fn e(s: &str, f: impl Fn(&mut ParseOptions)) -> String {
    let mut o = ParseOptions::default(); f(&mut o);
    match Doc::parse(s, o) { Ok(_) => panic!("{:?} accepted", s), Err(e) => e.to_string() }
}
fn r(d: &DocHolder, f: impl Fn(&mut RenderOptions)) -> String {
    let mut o = RenderOptions::default(); f(&mut o); d.render(&o)
}
fn kid(n: &RefNode, i: usize) -> RefNode { n.borrow().childs.as_ref().unwrap()[i].clone() }
'''
S = []
def seed(id, prop, edits, demo, needs, breaks): S.append((id, prop, edits, demo, needs, breaks))

exec(open(os.path.join(ROOT, "tools", "seed_specs.py")).read())

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def gen(ids):
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    base = sh("git -C /repo log --format=%H --reverse").stdout.split()[0]
    for id, prop, edits, demo, needs, breaks in S:
        if ids and id not in ids: continue
        for f, old, new in edits:
            p = "/repo/" + f; t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            a = t[:t.index(old)].count("\n") + 1; b = a + old.count("\n")
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        d = os.path.join(SEED, id); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        clean()
        # removed lines must be lines of the base commit
        n = 0
        for f in {e[0] for e in edits}:
            bl = sh(f"git -C /repo blame -s -l {f}").stdout.split("\n")
            ln = 0; cur = None
            for l in diff.split("\n"):
                if l.startswith("+++ "): cur = l[6:]
                if l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0]); continue
                if cur != f or l.startswith(("---", "+++", "diff", "index")): continue
                if l.startswith("-"):
                    own = bl[ln-1].startswith("^") or base.startswith(bl[ln-1].split()[0].lstrip("^")[:39])
                    if own: n += 1
                    else: print(id, "NOT ORIGINAL:", bl[ln-1])
                if l[:1] in "- ": ln += 1
        if n == 0: print(id, "changes no original line")
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(PRE + "fn main() {\n" + demo + "\n}\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def test(ids, all_checks=False):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else [])
    for id, prop, *_ in S:
        if ids and id not in ids: continue
        d = os.path.join(SEED, id)
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        a = sh(f"git -C /repo apply {d}/patch.diff")
        assert a.returncode == 0, a.stderr
        try:
            t = sh("bash /opt/vp/test.sh /tmp/seed_o.json", cwd="/repo")
            o = json.load(open("/tmp/seed_o.json"))
            r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
            c = sh(f"./run.sh {prop} quick", cwd=ROOT)
            caught = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            print(id, prop, "demo", r0.returncode, r1.returncode, "tests", {k: (len(v) if isinstance(v, list) else v) for k, v in o.items()} , "check rc", c.returncode, caught[:1], flush=True)
            if r0.returncode: print(r0.stdout[-500:], r0.stderr[-800:])
            if not r1.returncode or c.returncode == 2: print(c.stdout[-800:])
            if r1.returncode: print("   ", [l for l in r1.stderr.split("\n") if l and "note:" not in l and "panicked" not in l][:3])
        finally: clean()
if __name__ == "__main__":
    {"gen": gen, "test": test}[sys.argv[1]](set(sys.argv[2:]))
