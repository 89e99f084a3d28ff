"""Writes /verif/seeded/<id>/ from the seed descriptions in tools/seeds/*.py and, with -t, confirms each in a scratch copy.

tools/mkseeds.py [-t] [substr ...]"""
import os, sys, json, shutil, subprocess, glob, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, "seeded")

DEMO = r'''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/demo/src" "$tmp/data"
cp "$here/main.rs" "$tmp/demo/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/demo/Cargo.lock"
cat > "$tmp/demo/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
blockchaintree = { path = "$repo" }
tokio = { version = "1", features = ["full"] }
primitive-types = "0.12.2"
secp256k1 = { version = "0.29", features = ["rand-std"] }
sled = "0.34.7"
error-stack = "0.4.1"
sha2 = "0.10"

[workspace]
END
cd "$tmp/demo"
export CARGO_TARGET_DIR="${SEED_TARGET:-$tmp/target}"
cargo build --offline -q > "$tmp/build.log" 2>&1 || { tail -20 "$tmp/build.log"; exit 3; }
cd "$tmp/data"
timeout 120 "$CARGO_TARGET_DIR/debug/demo" "$tmp/data"
'''

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use blockchaintree::block::{self, BasicInfo, Block, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::merkletree::MerkleTree;
use blockchaintree::static_values::*;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable, TransactionableItem};
use primitive_types::U256;
use std::sync::Arc;

fn scratch() -> String {
    let dir = format!("{}/run", std::env::args().nth(1).expect("scratch directory"));
    std::fs::create_dir_all(&dir).unwrap();
    dir + "/"
}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}

/// a nonce for the block after one with this hash and difficulty
fn mine(prev: &[u8; 32], difficulty: &[u8; 32], transactions: &[[u8; 32]]) -> [u8; 32] {
    let mut nonce = [0u8; 32];
    for i in 0u64.. {
        nonce[24..].copy_from_slice(&i.to_be_bytes());
        if tools::check_pow(prev, difficulty, transactions, &nonce) {
            return nonce;
        }
    }
    unreachable!()
}

fn keys(n: u8) -> ([u8; 32], [u8; 33]) {
    let secret = [n; 32];
    let key = secp256k1::SecretKey::from_slice(&secret).unwrap();
    let public = secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &key);
    (secret, public.serialize())
}

fn info(height: u64, previous_hash: [u8; 32], timestamp: u64, difficulty: [u8; 32]) -> BasicInfo {
    BasicInfo { timestamp, pow: [0; 32], previous_hash, height: U256::from(height), difficulty, founder: [2; 33] }
}
'''


def seeds():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        ns = {"__file__": f}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["SEEDS"]
    return out


def write(s):
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    try:
        files = sorted({e[0] for e in s["edits"]})
        for side in "ab":
            for f in files:
                os.makedirs(os.path.join(tmp, side, os.path.dirname(f)), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), os.path.join(tmp, side, f))
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, "b", f)
            t = open(p).read()
            n = t.count(old)
            assert n >= 1, (s["id"], f, old)
            if isinstance(new, tuple):      # (occurrence, text)
                i, new = new
                pos = -1
                for _ in range(i + 1):
                    pos = t.index(old, pos + 1)
                t = t[:pos] + new + t[pos + len(old):]
            else:
                assert n == 1, (s["id"], f, "occurs %d times" % n, old)
                t = t.replace(old, new)
            open(p, "w").write(t)
        r = subprocess.run(["diff", "-u", "-r", "a", "b"], cwd=tmp, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines(True) if not l.startswith("diff ")]
        lines = [l.split("\t")[0] + "\n" if l.startswith(("--- ", "+++ ")) else l for l in lines]
        open(os.path.join(d, "patch.diff"), "w").write("".join(lines))
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "main.rs"), "w").write(PRELUDE + s["main"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def run(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, shell=True)


def confirm(s, d):
    """demo quiet on /repo, tests pass and demo fails with the patch"""
    wt = "/tmp/seedrepo"
    if not os.path.isdir(wt):
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
    run("git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", wt)
    a = run("bash %s/demo.sh" % d, wt, SEED_TARGET="/tmp/seedtarget")
    p = run("git apply %s/patch.diff" % d, wt)
    if p.returncode:
        return "patch does not apply: " + p.stderr
    t = run("rm -rf BlockChainTree; cargo test --no-fail-fast --offline --lib --test block_test --test blockchaintree_test --test chain_test --test transaction_test -- --test-threads 1", wt, CARGO_TARGET_DIR="/tmp/seedtests")
    passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set()
    def names(x):
        if isinstance(x, str):
            want.add(x)
        elif isinstance(x, list):
            for y in x: names(y)
        elif isinstance(x, dict):
            for k in x:
                names(x[k]) if k in ("stable", "passed", "pass", "tests") else None
    names(base)
    missing = [w for w in want if w.split("::", 1)[-1] not in passed and w.split(" ")[-1] not in passed and w not in passed and w.split("::")[-1] not in {q.split("::")[-1] for q in passed}]
    b = run("bash %s/demo.sh" % d, wt, SEED_TARGET="/tmp/seedtarget")
    run("git checkout -q -- .", wt)
    return "unpatched %d, patched %d (%s), tests passed %d, missing %s%s" % (
        a.returncode, b.returncode, (b.stdout.strip().splitlines() or [b.stderr.strip()[-100:]])[-1][:120], len(passed), missing[:3],
        "" if a.returncode == 0 and b.returncode != 0 and (b.returncode != 3 or s["property"] == "C24") and not missing else "   <-- NOT CONFIRMED " + (a.stdout + a.stderr)[-400:])


if __name__ == "__main__":
    test = "-t" in sys.argv
    subs = [a for a in sys.argv[1:] if not a.startswith("-")]
    for s in seeds():
        if subs and not any(x in s["id"] for x in subs):
            continue
        d = write(s)
        print(s["id"], s["property"], confirm(s, d) if test else "", flush=True)
