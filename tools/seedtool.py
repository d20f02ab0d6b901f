#!/usr/bin/env python3
"""Plant, confirm and try seeded bugs (development tool; no check uses it).

  seedtool.py make ID...      write seeded/ID from tools/seeds/ID.seed and confirm it in a scratch copy
  seedtool.py detect ID...    apply seeded/ID/patch.diff to /repo, run the quick check of its property, undo

A .seed file: header lines `key: value` (property, needs, breaks, file), then blocks
@@@old / @@@new (one or more pairs) and @@@demo (body of a Rust main using the helpers below).
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; R = "/repo"; BASE = "444617c"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
DEMO = '''#!/bin/bash
# run with cwd = the repository: exit 0 if it behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rphtml = { path = "$repo" }
[workspace]
END
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>&1 | grep -E '^error' && exit 3
timeout 60 "$d/target/debug/demo"
'''
HEAD = '''#![allow(unused_imports, dead_code, unused_variables)]
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::parser::*;
use rphtml::types::GenResult;
use std::rc::Rc;
fn po(flags: &str) -> ParseOptions {
	ParseOptions {
		case_sensitive_tagname: flags.contains('c'),
		allow_attr_key_starts_with_equal_sign: flags.contains('e'),
		allow_self_closing: flags.contains('s'),
		auto_fix_unclosed_tag: flags.contains('u'),
		auto_fix_unexpected_endtag: flags.contains('x'),
		auto_fix_unescaped_lt: flags.contains('l'),
	}
}
fn parse(src: &str, flags: &str) -> GenResult<DocHolder> {
	Doc::parse(src, po(flags))
}
fn doc(src: &str, flags: &str) -> DocHolder {
	match parse(src, flags) {
		Ok(d) => d,
		Err(e) => panic!("{:?} is refused: {}", src, e),
	}
}
fn err(src: &str, flags: &str) -> String {
	match parse(src, flags) {
		Ok(_) => panic!("{:?} is accepted", src),
		Err(e) => e.to_string(),
	}
}
fn ro() -> RenderOptions {
	RenderOptions::default()
}
fn render(src: &str, flags: &str) -> String {
	doc(src, flags).render(&ro())
}
fn s(c: &[char]) -> String {
	c.iter().collect()
}
// the tree as text
fn dump(node: &RefNode) -> String {
	let n = node.borrow();
	let mut out = format!("{:?}", n.node_type);
	if let Some(m) = &n.meta {
		let m = m.borrow();
		out += &format!(" {}", s(&m.name));
		for a in &m.attrs {
			out += &format!(" [{:?} {:?} {:?}]", a.key.as_ref().map(|d| s(&d.content)), a.value.as_ref().map(|d| s(&d.content)), a.quote);
		}
	}
	if let Some(c) = &n.content {
		out += &format!(" {:?}", s(c));
	}
	if let Some(c) = &n.childs {
		out += &format!(" ({})", c.iter().map(dump).collect::<Vec<_>>().join(", "));
	}
	if let Some(e) = &n.end_tag {
		out += &format!(" /{:?}", e.borrow().content.as_ref().map(|c| s(c)));
	}
	out
}
fn tree(src: &str, flags: &str) -> String {
	dump(&doc(src, flags).get_root_node())
}
fn child(node: &RefNode, i: usize) -> RefNode {
	Rc::clone(&node.borrow().childs.as_ref().unwrap()[i])
}
'''
def sh(cmd, cwd, timeout=900, env=ENV):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)
def read(path):
    head, blocks = {"file": "src/parser.rs"}, []
    text = open(path).read()
    parts = re.split(r"(?m)^@@@(\w+) *(\S*)\n", text)
    for l in parts[0].strip().split("\n"):
        k, v = l.split(":", 1); head[k.strip()] = v.strip()
    for i in range(1, len(parts), 3):
        blocks.append((parts[i], parts[i + 1], parts[i + 2]))
    return head, blocks
def make(id):
    head, blocks = read(os.path.join(V, "tools/seeds", id + ".seed"))
    scratch = "/tmp/seedscratch"
    if not os.path.exists(scratch):
        subprocess.run(["cp", "-a", R, scratch], check=True)
    sh("git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", scratch)
    cur, oldb = head["file"], None
    demo = None
    for k, arg, body in blocks:
        if k == "file": cur = arg or body.strip()
        elif k == "old": oldb = body
        elif k == "new":
            p = os.path.join(scratch, cur); t = open(p).read()
            if t.count(oldb) != 1:
                print(id, "OLD BLOCK OCCURS", t.count(oldb), "TIMES:\n" + oldb); return False
            open(p, "w").write(t.replace(oldb, body))
        elif k == "demo": demo = body
    out = os.path.join(V, "seeded", id)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    diff = sh("git diff", scratch).stdout
    open(out + "/patch.diff", "w").write(diff)
    # removed lines must come from the original repository
    removed = alien = 0
    f = None
    for l in diff.split("\n"):
        if l.startswith("--- "): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1])
        elif f and l.startswith("-"):
            removed += 1
            bl = sh(["git", "blame", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], R).stdout
            if not bl.startswith("^" + BASE): alien += 1
            n += 1
        elif f and l.startswith(" "): n += 1
    if not removed: print(id, "WARNING: removes no line")
    if alien: print(id, "WARNING: %d lines not in the original" % alien)
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
    open(out + "/main.rs", "w").write(HEAD + demo)
    lock = open(V + "/harness/Cargo.lock").read().replace('name = "rpharness"', 'name = "demo"')
    open(out + "/Cargo.lock.txt", "w").write(lock)
    json.dump({"property": head["property"], "needs": head["needs"], "what_it_breaks": head["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    ok = True
    b = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", scratch, env=dict(ENV, CARGO_TARGET_DIR=scratch + "/target", CARGO_TERM_COLOR="never"))
    open("/tmp/seedscratch.log", "w").write(b.stdout)
    sh(["python3", "/opt/vp/results.py", "/tmp/seedscratch.json", "cargo:/tmp/seedscratch.log"], "/tmp")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(json.load(open("/tmp/seedscratch.json"))["passed"])
    if stable - passed:
        print(id, "STABLE TESTS FAIL:", sorted(stable - passed)[:5], b.stdout[-1500:] if len(stable - passed) > 30 else ""); ok = False
    bad = sh(["bash", out + "/demo.sh"], scratch)
    good = sh(["bash", out + "/demo.sh"], R)
    if bad.returncode in (0, 3): print(id, "DEMO PASSES WITH THE BUG", bad.returncode, bad.stdout[-800:]); ok = False
    if good.returncode != 0: print(id, "DEMO FAILS ON THE REAL TREE", good.stdout[-1500:]); ok = False
    print(id, "ok" if ok else "NOT OK", "|", bad.stdout.strip().replace("\n", " ")[:200], flush=True)
    return ok
def detect(id, props=None):
    out = os.path.join(V, "seeded", id)
    p = json.load(open(out + "/meta.json"))["property"]
    a = sh(["git", "apply", out + "/patch.diff"], R)
    if a.returncode: print(id, "DOES NOT APPLY", a.stdout); return
    try:
        for prop in props or [p]:
            r = sh(["python3", "check.py", prop, "quick"], V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print(id, prop, "exit", r.returncode, {0: "MISSED", 1: "caught"}.get(r.returncode, "TOOL ERROR"), "|", r.stdout.strip().split("\n")[0][:230] if r.returncode < 2 else r.stdout[-1500:], flush=True)
    finally:
        sh("git checkout -- .", R)
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids and ids[0] == "all":
        ids = sorted(os.listdir(V + "/seeded")) if cmd == "detect" else sorted(f[:-5] for f in os.listdir(V + "/tools/seeds"))
    if cmd == "make":
        for i in ids: make(i)
    elif cmd == "cross":
        detect(ids[0], ids[1:])
    else:
        for i in ids: detect(i)
