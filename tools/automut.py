#!/usr/bin/env python3
"""Systematic mutations of /repo/src in scratch copies: which survive the tests unnoticed by every rule?

  tools/automut.py OUT.jsonl [file-substr] [--seed N] [--max N] [--recheck EARLIER.jsonl]
--recheck: only those that survived in an earlier run, with the rules as they are now (the tests are not run again).
Each line of OUT: {"file","line","kind","old","new","result": "nocompile"|"caught"|"tests"|"SURVIVES","by":[..]}
"""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/automut"
SWAP = [("summary_db", "gas_db"), ("gas_db", "summary_db"), ("from", "to"), ("to", "from"), ("get_sender", "get_receiver"),
        ("get_receiver", "get_sender"), ("sender", "receiver"), ("receiver", "sender"), ("to_be_bytes", "to_le_bytes"),
        ("from_be_bytes", "from_le_bytes"), ("to_big_endian", "to_little_endian"), ("from_big_endian", "from_little_endian"),
        ("to_bytes_le", "to_bytes_be"), ("from_bytes_le", "from_bytes_be"),
        ("blocks", "height_reference"), ("height_reference", "blocks"), ("transactions", "blocks"), ("true", "false"), ("false", "true"),
        ("Less", "Greater"), ("Greater", "Less"), ("is_some", "is_none"), ("is_none", "is_some"), ("checked_add", "checked_sub"),
        ("add_amount", "sub_amount"), ("send_amount", "send_gas"), ("sub_gas", "sub_amount"), ("get_gas", "get_amount"),
        ("get_amount", "get_gas"), ("old_summary_db", "summary_db"), ("old_gas_db", "gas_db"), ("path_summary", "path_gas"),
        ("path_gas", "path_summary"), ("path_summary_old", "path_gas_old"), ("read_exact", "read"), ("write_all", "write"),
        ("difficulty", "pow"), ("previous_hash", "pow"), ("timestamp", "prev_timestamp"), ("prev_timestamp", "timestamp"),
        ("insert", "remove"), ("saturating_sub", "wrapping_sub"), ("left", "right"), ("min", "max"), ("max", "min"),
        ("unwrap_or", "min"), ("zero", "one"), ("one", "zero"), ("AMOUNT_SUMMARY", "GAS_SUMMARY"), ("OLD_AMOUNT_SUMMARY", "AMOUNT_SUMMARY"),
        ("first", "last"), ("last", "first"), ("hash", "previous_hash"), ("Transaction", "Token"), ("TransactionBlock", "SummarizeBlock"),
        ("SummarizeBlock", "DerivativeBlock"), ("DerivativeBlock", "TransactionBlock"), ("founder", "sender"), ("extend", "append"),
        ("leading_zeros", "trailing_zeros"), ("leading_zeros", "count_zeros"), ("any", "all"), ("all", "any"), ("get_height", "len"),
        ("BLOCKS_FOLDER", "REFERENCES_FOLDER"), ("DERIVATIVE_CHAINS_FOLDER", "BLOCKS_FOLDER"), ("read", "write"), ("write", "read")]
OPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "),
       (" || ", " && "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), (" * ", " + "), (" / ", " * "), (" % ", " / "),
       (" & ", " | "), (" >>= ", " <<= "), (" <<= ", " >>= "), ("..=", ".."), (" < ", " > "), (" > ", " < "), ("if !", "if "),
       (" <<= 1", " <<= 2"), (" + 1", ""), (" - 1", ""), (".rev()", ""), ("..", "..=")]


def code_lines(f):
    s = open(f).read()
    i = s.find("#[cfg(test)]")
    head = s if i < 0 else s[:i]
    return s, head


RX = [(r"\?(?=;|\s*$|\))", ".unwrap()"), (r"\.checked_add\(", ".overflowing_add("), (r"\bchecked_sub\b", "saturating_sub"),
      (r"\bsaturating_sub\b", "wrapping_sub"), (r"\.await\?", ".await.ok()"), (r"\breturn Err\(.*\);", "return Ok(Default::default());"),
      (r"\.is_zero\(\)", ".is_some()"), (r"\.clone\(\)", ".to_owned()"), (r"\.len\(\)", ".capacity()"), (r"&mut (?=self)", "&"),
      (r"\.eq\(", ".ne("), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.iter\(\)\.rev\(\)", ".iter()"),
      (r"\.zip\(", ".chain("), (r"\bUNIT\b", "ONE"), (r"\.as_ref\(\)", ""), (r"\bSome\((.*)\) =>", "Some(_) if false =>"),
      (r"\bOk\(true\)", "Ok(false)"), (r"\bOk\(false\)", "Ok(true)"), (r"\bU256::one\(\)", "U256::from(2)"), (r" as u8\b", " as i8 as u8"),
      (r"\bBYTE_GAS_PRICE\b", "FEE_STEP"), (r"\bFEE_STEP\b", "BYTE_GAS_PRICE"), (r"\bCOINS_PER_CYCLE\b", "FEE_STEP"),
      (r"\bOLD_AMOUNT_SUMMARY\b", "OLD_GAS_SUMMARY"), (r"\bfetch_add\b", "fetch_sub"), (r"\btruncate\(true\)", "truncate(false)"),
      (r"\bcreate\(true\)", "create_new(true)"), (r"\bwrite\(true\)", "append(true)"), (r"\bget_lt\b", "get_gt"),
      (r"\binsert\((&?[a-z_]+), (&?[a-z_]+)\)", r"insert(\2, \1)"), (r"\bremove_dir_all\b", "remove_dir"),
      (r"\b(self|other)\.timestamp\b", "self.timestamp"), (r"\bcmp\(&other", "cmp(&self"), (r"\bSome\((self|[a-z]+)\.cmp", r"Some(\1.cmp"),
      (r"\bexists\(\)", "is_dir()"), (r"\bcompare_digest\b", "ne"), (r"\bjoin\(([A-Z_]+)\)", 'join("x")'), (r"\.step_by\(2\)", ".step_by(4)"),
      (r"\bu64\b", "u32"), (r"\busize\b", "u8")]


def swaps(head):
    """adjacent one-line statements exchanged"""
    ls = head.split("\n")
    pos = 0
    for i in range(len(ls) - 1):
        a, b = ls[i], ls[i + 1]
        ind = len(a) - len(a.lstrip())
        if a.strip().endswith(";") and b.strip().endswith(";") and ind == len(b) - len(b.lstrip()) and ind and not a.strip().startswith((".", "}", ")")) \
                and not b.strip().startswith((".", "}", ")")) and not a.strip().startswith(("use ", "//")):
            yield i + 1, pos, a + "\n" + b, b + "\n" + a
        pos += len(a) + 1


def mutations2():
    for f in sorted(os.listdir("/repo/src")):
        if not f.endswith(".rs") or f in ("errors.rs", "lib.rs", "types.rs", "static_values.rs"):
            continue
        s, head = code_lines("/repo/src/" + f)
        for ln, pos, old, new in swaps(head):
            yield f, ln, "swapst", pos, old, new
        pos = 0
        for ln, l in enumerate(head.split("\n"), 1):
            t = l.strip()
            if t and not (t.startswith("//") or t.startswith("use ") or t.startswith("#") or "printable" in t):
                for rx, new in RX:
                    for m in re.finditer(rx, l):
                        n = m.expand(new) if "\\" in new else new
                        if n != m.group():
                            yield f, ln, "rx", pos + m.start(), m.group(), n
                # two arguments of one call exchanged
                for m in re.finditer(r"\(([&*]?[\w.]+), ([&*]?[\w.]+)\)", l):
                    yield f, ln, "args", pos + m.start(), m.group(), "(%s, %s)" % (m.group(2), m.group(1))
            pos += len(l) + 1


def mutations():
    if "--second" in sys.argv:
        yield from mutations2()
        return
    for f in sorted(os.listdir("/repo/src")):
        if not f.endswith(".rs") or f in ("errors.rs", "lib.rs", "types.rs", "static_values.rs"):
            continue
        s, head = code_lines("/repo/src/" + f)
        pos = 0
        lines = head.split("\n")
        for ln, l in enumerate(lines, 1):
            t = l.strip()
            code = not (t.startswith("//") or t.startswith("use ") or t.startswith("#") or "printable" in t)
            if code and t:
                for a, b in OPS:
                    for m in re.finditer(re.escape(a), l):
                        if "->" in l[max(0, m.start() - 1):m.end() + 1] or "=>" in l[max(0, m.start() - 1):m.end() + 1]:
                            continue
                        yield f, ln, "op", pos + m.start(), a, b
                for a, b in SWAP:
                    for m in re.finditer(r"\b%s\b" % a, l):
                        yield f, ln, "swap", pos + m.start(), a, b
                for m in re.finditer(r"\b\d+\b", l):
                    n = int(m.group())
                    for b in {n + 1, max(n - 1, 0)} - {n}:
                        yield f, ln, "const", pos + m.start(), m.group(), str(b)
                m = re.match(r"\s*if (?!let)(.*) \{$", l)
                if m:
                    yield f, ln, "true", pos + m.start(1), m.group(1), "true || (%s)" % m.group(1)
                    yield f, ln, "false", pos + m.start(1), m.group(1), "false && (%s)" % m.group(1)
            pos += len(l) + 1
        # statement deletion: a statement starts at the beginning of a line after `{`, `}` or `;` and ends at a `;` of the same depth
        starts = [m.start(1) for m in re.finditer(r"[;{}]\n\s*(?=\S)()", head)]
        for st in starts:
            d, i = 0, st
            while i < len(head):
                c = head[i]
                if c in "([{":
                    d += 1
                elif c in ")]}":
                    d -= 1
                    if d < 0:
                        break
                elif c == ";" and d == 0:
                    old = head[st:i + 1]
                    if not re.match(r"let|use|pub|static|const|return|//|#|fn |impl|struct|type", old) and len(old) < 900:
                        yield f, head.count("\n", 0, st) + 1, "del", st, old, ""
                    break
                if c == "}" and d == 0:
                    # a block statement such as `if .. { .. }`
                    old = head[st:i + 1]
                    if re.match(r"if |for |while ", old) and not head[i + 1:].lstrip().startswith("else") and len(old) < 1500:
                        yield f, head.count("\n", 0, st) + 1, "del", st, old, ""
                    break
                i += 1


RUN = r'''
import sys, json
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
from sa.base import RULES, Ctx, Missing, Undecided, load
import sa.rules, check
P = load(sys.argv[1]); by = []; unk = []
known = check.known_findings()
first = sys.argv[2] == "first"
for p in sorted(RULES, key=lambda q: (q in ("C29","C28","C42","C19","C36"), q)):
    cx = Ctx(P, p, "quick", 300)
    try: RULES[p](cx)
    except Exception: pass
    if any(o[0] == "bad" and o[1] not in known.get(p, {}) for o in cx.obs):
        by.append(p)
        if first: break
    unk += ["%%s :: %%s" %% (o[1], o[3]) for o in cx.obs if o[0] == "unk"][:3]
print("BY", json.dumps(by))
print("UNK", json.dumps(unk[:12]))
''' % HERE


def one(k, m):
    f, ln, kind, pos, old, new = m
    d = "%s/%d" % (SCR, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    res = {"file": f, "line": ln, "kind": kind, "old": old, "new": new}
    try:
        shutil.copytree("/repo/src", d + "/src")
        for x in ("Cargo.toml", "Cargo.lock"):
            shutil.copy("/repo/" + x, d)
        if os.path.isdir("/repo/tests"):
            shutil.copytree("/repo/tests", d + "/tests")
        s = open(d + "/src/" + f).read()
        assert s[pos:pos + len(old)] == old
        open(d + "/src/" + f, "w").write(s[:pos] + new + s[pos + len(old):])
        env = dict(os.environ, REPO=d)
        r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import check; check.REPO=%r; check.dump(%r)" % (HERE, d, d + "/m.json")],
                           env=env, capture_output=True, text=True)
        if r.returncode:
            res["result"] = "nocompile"
            return res
        q = subprocess.run([sys.executable, "-c", RUN, d + "/m.json", "first"], capture_output=True, text=True)
        by = [json.loads(l[3:]) for l in q.stdout.splitlines() if l.startswith("BY ")]
        if not by:
            res["result"] = "crash " + q.stderr[-300:]
            return res
        res["by"] = by[0]
        res["unk"] = [json.loads(l[4:]) for l in q.stdout.splitlines() if l.startswith("UNK ")][0]
        if by[0]:
            res["result"] = "caught"
            return res
        if RECHECK:
            res["result"] = "SURVIVES"
            return res
        tgt = "/tmp/automut-target-%d" % (k % W)
        with LOCKS[k % W]:
            t = subprocess.run("cargo test --no-fail-fast --offline --lib --test block_test --test blockchaintree_test --test chain_test "
                               "--test transaction_test --target-dir %s -- --test-threads 1" % tgt, cwd=d, capture_output=True, text=True,
                               timeout=300, shell=True)
        passed = {l.split()[1].split("::")[-1] for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
        missing = sorted(BASE - passed)
        res["result"] = "tests" if missing else "SURVIVES"
        res["missing"] = missing[:4] if len(missing) < len(BASE) else "all"
        return res
    except subprocess.TimeoutExpired:
        res["result"] = "tests timeout"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


W = 3
RECHECK = set()
BASE = {n.split("::")[-1] for n in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
import threading
LOCKS = [threading.Lock() for _ in range(W)]


def main():
    out = sys.argv[1]
    sub = [a for a in sys.argv[2:] if not a.startswith("--") and not a.isdigit()]
    seed = int(sys.argv[sys.argv.index("--seed") + 1]) if "--seed" in sys.argv else 1
    top = int(sys.argv[sys.argv.index("--max") + 1]) if "--max" in sys.argv else 10 ** 9
    ms = [m for m in mutations() if not sub or any(x in m[0] for x in sub)]
    random.Random(seed).shuffle(ms)
    if "--recheck" in sys.argv:
        i = sys.argv.index("--recheck")
        del sub[:]
        RECHECK.update((r["file"], r["line"], r["kind"], r["old"], r["new"]) for r in map(json.loads, open(sys.argv[i + 1]))
                       if r["result"] == "SURVIVES")
        ms = [m for m in mutations() if (m[0], m[1], m[2], m[4], m[5]) in RECHECK]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["kind"], r["old"], r["new"]))
    ms = [m for m in ms if (m[0], m[1], m[2], m[4], m[5]) not in done][:top]
    print(len(ms), "mutations")
    with open(out, "a") as fo, ThreadPoolExecutor(7) as ex:
        for r in ex.map(lambda km: one(*km), list(enumerate(ms))):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
