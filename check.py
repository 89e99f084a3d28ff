#!/usr/bin/env python3
"""Decide one property on /repo's current tree.

  check.py C07 [--tier quick|thorough] [--mir dump.json]

Compiles the crate with the analysis driver (a rustc wrapper), which writes the type-checked MIR of every function of
the crate; the rule of the property then interprets that MIR abstractly and checks its obligations.
Exit 0: no obligation is violated (known findings are printed).  Exit 1: VIOLATION line.  Exit 2: no answer.
"""
import argparse, fcntl, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)


def build_driver():
    src = os.path.join(HERE, "driver/src/main.rs")
    exe = os.path.join(BUILD, "mirx")
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    tmp = exe + ".new%d" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp], capture_output=True, text=True,
                       cwd=os.path.join(HERE, "driver"))
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit("cannot build the analysis driver")
    os.replace(tmp, exe)
    return exe


def dump(out):
    """type-check the crate and write its MIR to `out`"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
        target = os.path.join(BUILD, "target")
        # the crate itself is always analysed anew; only its dependencies are reused
        for d in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
            for n in os.listdir(d) if os.path.isdir(d) else ():
                if n == "blockchaintree" or n.startswith("blockchaintree-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), MIRX_OUT=out, MIRX_CRATE="blockchaintree",
                   RUSTC_WORKSPACE_WRAPPER=exe, CARGO_NET_OFFLINE="true", RUSTFLAGS="-C target-cpu=x86-64",
                   CARGO_TERM_COLOR="never")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path",
                            os.path.join(REPO, "Cargo.toml"), "--target-dir", target], env=env, capture_output=True,
                           text=True, cwd=HERE)
    if r.returncode or not os.path.exists(out) or not os.path.getsize(out):
        sys.stderr.write(r.stderr[-6000:])
        print("no answer: the crate does not type-check")
        raise SystemExit(2)


def known_findings():
    """key -> description of the findings listed for a property; `fixed:` entries suppress nothing"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                head, _, what = line[7:].partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split(" ", 1)[0:1] + head.split(" ", 1)[1:] if "=" in x)
                out.setdefault(f["property"], {})[f["key"]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--mir")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.prop == "--setup" or a.prop == "setup":
        t = tempfile.mkdtemp(prefix="mirx")
        try:
            dump(os.path.join(t, "m.json"))
        finally:
            shutil.rmtree(t)
        return 0
    t0 = time.time()
    tmp = None
    if a.mir:
        mir = a.mir
    else:
        tmp = tempfile.mkdtemp(prefix="mirx")
        mir = os.path.join(tmp, "m.json")
    try:
        if tmp:
            dump(mir)
        return decide(a, mir, t0)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def decide(a, mir, t0):
    sys.setrecursionlimit(20000)
    from sa.base import RULES, Ctx, Missing, Undecided, load
    import sa.rules
    P = load(mir)
    prop = a.prop
    budget = 500 if a.tier == "quick" else 800
    cx = Ctx(P, prop, a.tier, budget)
    try:
        RULES[prop](cx)
    except Missing as m:
        cx.undecided("missing|" + m.name, m.name, "the function this property is anchored on is not in the crate: " + m.name)
    except Undecided:
        pass
    except Exception as x:      # a construct the rule does not expect: no verdict rather than a false one
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        cx.undecided("rule", "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno), "%s: %s" % (type(x).__name__, x))
    known = known_findings().get(prop, {})
    oks = [o for o in cx.obs if o[0] == "ok"]
    unk = sorted({o[1:] for o in cx.obs if o[0] == "unk"})
    bads, finds = [], {}
    seen = set()
    for v, key, where, text in cx.obs:
        if v != "bad":
            continue
        if key in known:
            finds[key] = known[key]
        elif (key, where) not in seen:
            seen.add((key, where))
            bads.append((key, where, text))
    for k in sorted(finds):
        print("KNOWN-FINDING: property=%s %s" % (prop, finds[k]))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, "%s.violation.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the compiler's MIR of the current tree: every path of the analysed "
                           "functions is followed with symbolic inputs (loops generalised by induction, library calls by "
                           "summaries) and the rule's obligations are decided on each path. Rule: "
                           + " ".join((RULES[prop].__doc__ or "see DESIGN.md, " + prop).split()),
            "functions_in_crate": len(P.bodies),
            "functions_analysed": len(cx.visited), "entry_runs": len(cx.runs),
            "entry_functions": sorted(set(cx.runs)),
            "analysed": sorted(cx.visited)[:200],
            "paths": cx.paths, "events_on_paths": cx.events, "call_sites": len(cx.callsites), "loops": len(cx.loops),
            "obligations": len(cx.obs), "discharged": len(oks), "undecided": len([o for o in cx.obs if o[0] == "unk"]),
            "undecided_obligations": [" | ".join(o) for o in unk[:40]],
            "known_findings": sorted(finds), "obligation_keys": sorted({o[1] for o in cx.obs})[:300],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": k, "where": w, "what": t} for k, w, t in bads[:50]],
    }
    if not a.no_evidence:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d obligations on %d paths of %d functions: %d discharged, %d undecided, %d known, %d violated (%.1f s)"
          % (prop, len(cx.obs), cx.paths, len(cx.visited), len(oks), len([o for o in cx.obs if o[0] == "unk"]),
             len(finds), len(bads), time.time() - t0))
    for o in unk[:10]:
        print("  undecided: %s at %s: %s" % (o[0], o[1], o[2][:200]))
    if bads:
        with open(replay, "w") as f:
            for k, w, t in bads:
                f.write("%s\n  at %s\n  %s\n" % (k, w, t))
        for k, w, t in bads[:8]:
            print("  violated: %s at %s: %s" % (k, w, t[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
