#!/usr/bin/env python3
"""dev helper.  seed.py add FILE..   : make /verif/seeded/<id> from a spec, confirm it, run the property's check
              seed.py run [ID..]   : re-run the check of existing seeds against /repo
spec (python literal): {id, property, needs, what, edits: [(file, old, new)], main: rust, deps: [..]}"""
import ast, json, os, shutil, subprocess, sys
V = "/verif"
PRE = r'''
#![allow(dead_code, unused_imports)]
use std::fmt::Write as _;
/// events of a text in a compact notation; "ERR" at an error
pub fn ev(text: &str) -> String {
    use yam_core::parsing::{Event, Parser};
    let mut p = Parser::new_from_str(text);
    let mut o = String::new();
    for _ in 0..100000 {
        match p.next_event() {
            None => return o,
            Some(Err(_)) => { o.push_str("ERR"); return o; }
            Some(Ok((e, _))) => match e {
                Event::StreamStart | Event::StreamEnd => {}
                Event::DocumentStart(x) => o.push_str(if x { "+D! " } else { "+D " }),
                Event::DocumentEnd => o.push_str("-D "),
                Event::Alias(i) => { write!(o, "*{i} ").unwrap(); }
                Event::Scalar(s) => { write!(o, "={:?}", s.scalar_type).unwrap(); if s.anchor_id != 0 { write!(o, "&{}", s.anchor_id).unwrap(); } if let Some(t) = &s.tag { write!(o, "<{}|{}>", t.handle, t.suffix).unwrap(); } write!(o, "{:?} ", s.value).unwrap(); }
                Event::SequenceStart(a, t) => { o.push('['); if a != 0 { write!(o, "&{a}").unwrap(); } if let Some(t) = &t { write!(o, "<{}|{}>", t.handle, t.suffix).unwrap(); } o.push(' '); }
                Event::SequenceEnd => o.push_str("] "),
                Event::MappingStart(a, t) => { o.push('{'); if a != 0 { write!(o, "&{a}").unwrap(); } if let Some(t) = &t { write!(o, "<{}|{}>", t.handle, t.suffix).unwrap(); } o.push(' '); }
                Event::MappingEnd => o.push_str("} "),
                _ => {}
            }
        }
    }
    o.push_str("ENDLESS");
    o
}
pub fn is(text: &str, want: &str) {
    let got = ev(text);
    assert_eq!(got.trim(), want.trim(), "for {text:?}");
}
'''
DEMO = r'''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
set -e
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
%s
[workspace]
T
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 3; }
ulimit -v 4000000; export RUST_BACKTRACE=0
RUST_BACKTRACE=0 timeout 20 "$d/target/debug/demo"
'''


def sh(c, cwd="/repo", t=1000):
    r = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return r.returncode, r.stdout


def clean():
    sh("git checkout -- .")


def tests():
    if sh("bash /opt/vp/build.sh")[0]:
        return "does not build"
    sh("bash /opt/vp/test.sh /tmp/seedt.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    t = json.load(open("/tmp/seedt.json"))
    bs = set(b["passed"] if "passed" in b else b.get("stable", b.get("tests", [])))
    miss = sorted(bs - set(t["passed"]))
    return "" if not miss else "tests fail: %s" % miss[:4]


def check(prop):
    rc, o = sh(["python3", "check.py", prop, "quick"], cwd=V, t=900)
    v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    return rc == 1 and bool(v), o


def record(i, caught):
    f = V + "/tools/catch.json"
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[i] = caught
    json.dump(d, open(f, "w"), indent=0, sort_keys=True)


def add(fn):
    s = eval(open(fn).read())
    for s in (s if isinstance(s, list) else [s]):
        add1(s)


def add1(s):
    i = s["id"]
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    deps = s.get("deps", ['yam-core = { path = "$repo/yam-core" }'])
    open(d + "/demo.sh", "w").write(DEMO % "\n".join(deps))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(PRE + s["main"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    assert sh("git status --short")[1].strip() == "", "/repo dirty"
    fail = None
    rc, o = sh(["bash", d + "/demo.sh"])
    if rc:
        fail = "demo fails on the unchanged tree: " + o[-800:]
    else:
        try:
            for f, a, b in s["edits"]:
                t = open("/repo/" + f).read()
                if t.count(a) != 1:
                    fail = "edit matches %d times: %s" % (t.count(a), a[:80])
                    break
                open("/repo/" + f, "w").write(t.replace(a, b))
            if not fail:
                open(d + "/patch.diff", "w").write(sh("git diff")[1])
                fail = tests()
            if not fail:
                rc, o = sh(["bash", d + "/demo.sh"])
                if rc == 0 or rc == 3:
                    fail = "demo does not fail with the patch (rc %d) %s" % (rc, o[-400:])
            if not fail:
                ok, o = check(s["property"])
                record(i, ok)
                print(i, s["property"], "CAUGHT" if ok else "MISSED\n" + o[-700:])
        finally:
            clean()
    if fail:
        print(i, "REJECTED:", fail)
        shutil.rmtree(d)


def run(ids):
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        if not os.path.exists(d + "/patch.diff"):
            continue
        p = json.load(open(d + "/meta.json"))["property"]
        try:
            rc, o = sh(["git", "apply", d + "/patch.diff"])
            if rc:
                print(i, "patch does not apply", o)
                continue
            ok, o = check(p)
            record(i, ok)
            print(i, p, "CAUGHT" if ok else "MISSED " + o[-300:], flush=True)
        finally:
            clean()


{"add": lambda a: [add(x) for x in a], "run": run}[sys.argv[1]](sys.argv[2:])
