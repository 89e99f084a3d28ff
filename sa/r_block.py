"""C16, C17 and C18: validation and production of blocks, and the proof of work."""
from .base import *
from .r_ledger import LPRIMS, facts_terms
from .r_codec import small_self, quietly
from .r_chain import CPRIMS, tree_roles, last_get
from .r_num import run_shape, difficulty_classes, byte_bounds
from . import models as M
from .mcore import ret, W

PREV_FIELDS = ("timestamp", "pow", "previous_hash", "height", "difficulty", "founder")


def need_prims(cx, *names):
    """the functions the conditions are stated with exist and are summarised"""
    for n in names:
        if not cx.has(n):
            cx.undecided("anchor|" + n, n, "%s is not there" % n)
            raise Undecided(n)


def own_fields(P, v):
    """fields of a block value by name; those of its basic information without prefix"""
    out = {}
    if v.k == "adt" and v.a[0].startswith("block::"):
        for names, x in named_fields(P, v):
            out.setdefault(names[-1], x)
            if x.k != "adt" and names[-1] == "default_info":
                for f in PREV_FIELDS:
                    out[f] = fld(x, f)
        return out
    di = fld(v, "default_info")
    for f in PREV_FIELDS:
        out[f] = fld(di, f)
    for f in ("merkle_tree_root", "transactions", "fee"):
        out[f] = fld(v, f)
    return out


def prev_terms(cx, st, p):
    """hash, timestamp and difficulty of a preceding block, as the path may spell them"""
    P = cx.P
    if p.k == "adt":
        f = own_fields(P, p)
        kind = p.a[0].split("::")[-1]
        hs = []
        fn = blk(kind, "hash")
        if cx.has(fn):
            for o in cx.run(fn, args={0: p}, st=st):
                if is_ok(o):
                    hs.append(okval(o))
        return hs, f["timestamp"], f["difficulty"]
    info = mk("call", "block::Block::get_info", p)
    hs = [mk("vf", mk("call", "block::Block::hash", p), 0, 0),
          mk("hash", seq((mk("cat", mk("vf", mk("call", "block::Block::dump", p), 0, 0)),))),
          mk("hash", mk("vf", mk("call", "block::Block::dump", p), 0, 0))]
    return hs, fld(info, "timestamp"), fld(info, "difficulty")


def is_empty(st, v):
    if v.k == "adt" and v.a[0] == OPTION and v.a[1] == 0:
        return True
    n = st.norm(length(v))
    return n.k == "int" and n.a[0] == 0 or st.truth(ieq(n, integer(0))) is True


def work_done(st, hs, diff, txs, pw):
    """the path established that the proof of work pw is accepted"""
    for c in facts_terms(st):
        for x in subterms(c):
            if x.k != "pow_ok" or st.truth(x) is not True:
                continue
            h, d, t, w = x.a
            if not any(same(st, h, y) for y in hs):
                continue
            if not same(st, d, diff) or not same(st, w, pw):
                continue
            if txs is None and is_empty(st, t) or txs is not None and (same(st, t, txs) or is_empty(st, t) and is_empty(st, txs)):
                return True
    return False


def vague_path(st, *vals):
    return bool(st.unk) or any(vague(v) for v in vals)


# ------------------------------------------------------------------ C16
def successes(outs):
    """paths on which a Result<bool> is Ok(true)"""
    for o in outs:
        if not is_ok(o):
            continue
        v = okval(o)
        if v.k == "bool":
            if v.a[0]:
                yield o[1], v
            continue
        s = o[1].copy()
        if s.assume(v, True):
            yield s, v


@rule("C16")
def c16(cx):
    """every path of the three validate functions that ends in Ok(true) for a block with a predecessor: its facts must imply
    that the block's previous hash is the predecessor's hash, its difficulty the one recalculated from the predecessor's
    difficulty and both timestamps, its proof of work accepted for that hash, the predecessor's difficulty, the block's own
    transactions and nonce, and (transaction blocks) its merkle root the root of its own transactions"""
    need_prims(cx, "tools::check_pow", "tools::recalculate_difficulty", "merkletree::MerkleTree::build_tree")
    P = cx.P
    for kind in KINDS:
        fn = cx.need(blk(kind, "validate"))
        at = fn_where(P, fn)
        p, s = sym("prev"), sym("block")
        n = 0
        for st, v in successes(cx.run(fn, args={0: s, 1: some(p)})):
            n += 1
            linked(cx, "C16|" + kind, at, st, v, s, p, kind == "TransactionBlock")
        cx.check(n > 0, "C16|%s|never" % kind, at, "%s is never accepted" % kind)

        def listed(b):
            for st, v in successes(cx.run(fn, args={0: b, 1: some(p)}, shapes=True)):
                linked(cx, "C16|" + kind, at, st, v, b, p, True)
        for k in (1, 2):
            b = small_self(cx, fn, k)
            if b is not None:
                quietly(lambda: listed(b))


def linked(cx, key, at, st, v, b, p, tb):
    f = own_fields(cx.P, b)
    hs, t0, d0 = prev_terms(cx, st, p)
    req(cx, any(same(st, f["previous_hash"], h) for h in hs), key + "|previous hash", at,
        "a block is accepted whose previous hash is not established to be the hash of its predecessor", st, v)
    d = mk("nextdiff", st.norm(t0), st.norm(f["timestamp"]), d0)
    ALEN.setdefault(d, 32)
    req(cx, same(st, f["difficulty"], d), key + "|difficulty", at,
        "a block is accepted whose difficulty is not established to follow from its predecessor", st, v)
    txs = f["transactions"] if tb else None
    req(cx, work_done(st, hs + [f["previous_hash"]], d0, txs, f["pow"]), key + "|work", at,
        "a block is accepted without establishing its proof of work for its predecessor's hash and difficulty, its own "
        "transactions and nonce", st, v)
    if tb:
        r = mk("mroot", f["transactions"])
        ALEN.setdefault(r, 32)
        req(cx, same(st, f["merkle_tree_root"], r), key + "|merkle root", at,
            "a block is accepted whose merkle root is not established to be the root of its transactions", st, v)


def req(cx, cond, key, at, text, st, *vals):
    """an implication the facts of a path must support; a path whose facts are not all understood is left undecided"""
    if cond:
        cx.ok(key, at, text)
    elif any(vague(c) for c in facts_terms(st)):
        cx.undecided(key, at, text + " [facts not understood]")
    else:
        cx.violated(key, at, text, st, vals)


# ------------------------------------------------------------------ C17
def p_decode_deriv(eng, st, c):
    """a derivative block with these bytes, field by field, or an error"""
    d = W(eng, st, c.args[0])
    s1 = st.copy()
    b = mk("dblk", d)
    P = eng.P
    info = fld(b, "default_info")
    fs = []
    a = P.adts["block::BasicInfo"]["variants"][0]["fields"]
    for f in a:
        x = fld(info, f["name"])
        eng.typed(x, f["ty"])
        fs.append(x)
    v = mk("adt", "block::DerivativeBlock", 0, (mk("adt", "block::BasicInfo", 0, tuple(fs)),))
    return [("ret", s1, err(mk("report", mk("badblock", d), ERRV))), ("ret", st, ok(v))]


def p_get_chain(eng, st, c):
    """the owner's derivative chain (C33), or an error"""
    s1 = st.copy()
    return [("ret", s1, err(mk("report", mk("nochain",), ERRV))), ("ret", st, ok(sym("dchain")))]


BPRIMS = dict(CPRIMS)
BPRIMS["block::DerivativeBlock::parse"] = p_decode_deriv
BPRIMS[TREE + "get_derivative_chain"] = p_get_chain


def params(cx, fn):
    """parameters of a producing operation by what they are"""
    P = cx.P
    b = P.bodies[fn]
    out = {}
    for i in range(1, b["argc"] + 1):
        s = P.tstr(b["locals"][i]["t"])
        for pat, n in (("[[u8; 32]]", "transactions"), ("[u8; 32]", "pow"), ("[u8; 33]", "founder"), ("u64", "timestamp")):
            if pat in s:
                if n in out:
                    return None
                out[n] = i - 1
                break
    return out


@rule("C17")
def c17(cx):
    """every successful path of producing a main-chain or derivative block: the fields of the returned block, the proof of
    work accepted on the path, the bytes appended and the outcome of running the block's own validation against the last
    block under the facts of the path"""
    need_prims(cx, "tools::check_pow", "tools::recalculate_difficulty", "merkletree::MerkleTree::build_tree")
    P = cx.P
    R = tree_roles(cx)
    for m in ("emmit_new_main_block", "emmit_new_derivative_block"):
        fn = cx.need(TREE + m)
        at = fn_where(P, fn)
        ps = params(cx, fn)
        if ps is None or not {"pow", "founder", "timestamp"} <= set(ps):
            cx.undecided("C17|%s|parameters" % m, at, "parameters not recognised")
            continue
        A = {"pow": bsym("pow", 32), "founder": bsym("founder", 33), "timestamp": mk("sym", "timestamp"),
             "transactions": sym("transactions")}
        RANGE[A["timestamp"]] = (0, (1 << 64) - 1)
        args = {i: A[n] for n, i in ps.items()}
        n = 0
        for o in cx.run(fn, args=args, prims=BPRIMS):
            if not is_ok(o):
                continue
            n += 1
            produced(cx, "C17|" + m, at, o, A, R, m)
        cx.check(n > 0, "C17|%s|never" % m, at, "no block is ever produced")


def dump_of(cx, st, v):
    kind = v.a[0].split("::")[-1]
    fn = blk(kind, "dump")
    return [okval(o) for o in cx.run(fn, args={0: v}, st=st) if is_ok(o)] if cx.has(fn) else []


def produced(cx, key, at, o, A, R, m):
    st = o[1]
    P = cx.P
    v = okval(o)
    if v.k != "adt" or not v.a[0].startswith("block::"):
        cx.undecided(key, at, "the produced block is %s" % show(v, 4))
        return
    kind = v.a[0].split("::")[-1]
    f = own_fields(P, v)
    for n in ("timestamp", "pow", "founder"):
        cx.check(same(st, f[n], A[n]), "%s|%s" % (key, n), at, "the %s of the block is %s" % (n, show(f[n], 4)), st, (f[n],))
    # appended before it is returned
    ds = dump_of(cx, st, v)
    if not ds:
        cx.undecided(key + "|dump", at, "serialized form of the block not known")
        return
    ins = [e for e in ops(o, "db.insert", "tx.insert") if any(same(st, e[2][2], d) for d in ds)]
    if not ins:
        cx.check(False, key + "|appended", at, "a block is returned that was not appended to the chain", st,
                 tuple(e[2][2] for e in ops(o, "db.insert", "tx.insert")))
        return
    B = ins[0][2][0]
    if m.startswith("emmit_new_main"):
        cx.check(B is R["blocks"], key + "|chain", where(ins[0]), "the block is stored in %s" % show(B, 3), st)
    else:
        cx.check(B.k == "fld" and B is not R["blocks"] and sym("dchain") in subterms(B) or vague(B), key + "|chain", where(ins[0]),
                 "the block is stored in %s" % show(B, 3), st)
    h = f["height"]
    cx.check(same(st, ins[0][2][1], M.mnum.be(32, h)), key + "|height", at,
             "the block has height %s and is stored at %s" % (show(h, 4), show(ins[0][2][1], 4)), st, (h, ins[0][2][1]))
    # its predecessor: what is stored just below
    first = same(st, h, integer(0))
    if not first:
        g = [e[3] for e in ops(o, "db.get") if e[2][0] is B and same(st, e[2][1], M.mnum.be(32, add(h, integer(-1))))
             and st.variant(e[3]) == 1]
        if not g:
            cx.check(False, key + "|last block", at, "the last block of the chain was not read", st,
                     tuple(e[2][1] for e in ops(o, "db.get")))
            return
        raw = mk("vf", g[0], 1, 0)
        prev = mk("blk", raw) if m.startswith("emmit_new_main") else None
        if prev is None:
            cands = {x for c in facts_terms(st) for x in subterms(c) if x.k == "dblk" and raw in subterms(x)}
            cands |= {x for x in subterms(v) if x.k == "dblk" and raw in subterms(x)}
            if len(cands) != 1:
                cx.check(False, key + "|last block", at, "the last block of the chain was read but not used", st, (v,))
                return
            b = cands.pop()
            info = fld(b, "default_info")
            prev = mk("adt", "block::DerivativeBlock", 0, (mk("adt", "block::BasicInfo", 0, tuple(
                fld(info, x["name"]) for x in P.adts["block::BasicInfo"]["variants"][0]["fields"])),))
        hs, t0, d0 = prev_terms(cx, st, prev)
    else:
        # the first block of a derivative chain continues the main-chain block the chain is anchored at
        if m.startswith("emmit_new_main"):
            cx.check(False, key + "|first", at, "a block without predecessor is produced on the main chain", st)
            return
        prev = None
        anchor = anchored(cx, st, o, R)
        if anchor is None:
            cx.check(False, key + "|anchor", at, "the first block does not continue the main-chain block with the genesis hash",
                     st, (f["previous_hash"],))
            return
        hs, t0, _ = prev_terms(cx, st, anchor[0])
        hs = list(hs) + [anchor[1]]
        b = P.statics.get("static_values::BEGINNING_DIFFICULTY")
        if b is None or not b.get("bytes"):
            cx.undecided(key + "|beginning", at, "beginning difficulty not known")
            return
        d0 = mk("bytes", tuple(b["bytes"]))
    cx.check(any(same(st, f["previous_hash"], x) for x in hs), key + "|previous hash", at,
             "the block's previous hash is %s and not the hash of the last block" % show(f["previous_hash"], 4), st,
             (f["previous_hash"],))
    d = mk("nextdiff", st.norm(t0), st.norm(A["timestamp"]), d0)
    ALEN.setdefault(d, 32)
    cx.check(same(st, f["difficulty"], d), key + "|difficulty", at,
             "the block's difficulty is %s and not the one recalculated from the last block" % show(f["difficulty"], 5), st,
             (f["difficulty"],))
    txs = f["transactions"] if kind == "TransactionBlock" else None
    req(cx, work_done(st, hs + [f["previous_hash"]], d0, txs, A["pow"]), key + "|work", at,
        "a block is produced without checking its proof of work against the last block's hash and difficulty", st)
    if kind == "TransactionBlock":
        cx.check(same(st, f["transactions"], A["transactions"]), key + "|transactions", at,
                 "the block lists %s" % show(f["transactions"], 4), st, (f["transactions"],))
        r = mk("mroot", f["transactions"])
        ALEN.setdefault(r, 32)
        cx.check(same(st, f["merkle_tree_root"], r), key + "|merkle root", at,
                 "the block's merkle root is %s" % show(f["merkle_tree_root"], 4), st, (f["merkle_tree_root"],))
    # what its own validation says
    if prev is None:
        return
    fn = blk(kind, "validate")
    if not cx.has(fn):
        return
    good = 0
    s0 = st.copy()
    v, prev = deepnorm(st, v), deepnorm(st, prev)
    for c in facts_terms(st):
        for x in subterms(c):
            if x.k == "pow_ok" and st.truth(x) is True:
                s0.assume(deepnorm(st, x), True)
            if x.k == "pow_ok" and st.truth(x) is True and is_empty(st, x.a[2]):
                s0.assume(mk("pow_ok", x.a[0], x.a[1], mk("arr", ()), x.a[3]), True)
    for x in cx.run(fn, args={0: v, 1: some(prev)}, st=s0, faults=False):
        if is_ok(x) and okval(x).k == "bool" and okval(x).a[0]:
            good += 1
            continue
        s = x[1]
        if is_ok(x) and okval(x).k == "bool":
            new = {c for c in facts_terms(s)} - {c for c in facts_terms(st)}
            if any(vague(c) for c in new) or s.unk:
                cx.undecided(key + "|validate", at, "validation of the produced block not understood")
            else:
                cx.violated(key + "|validate", at, "a block is produced that its own validation refuses", s)
        elif is_ok(x):
            cx.check(s.truth(okval(x)) is True, key + "|validate", at, "a block is produced whose validation ends in %s"
                     % show(okval(x), 4), s, (okval(x),))
            good += 1
    cx.check(good > 0, key + "|valid", at, "validation never accepts the produced block", st)


def anchored(cx, st, o, R):
    """the main-chain block whose hash is the genesis hash of the derivative chain, if the path read it"""
    G = [fld(sym("dchain"), n) for n in direct_fields(cx.P, "chain::DerivativeChain")]
    for e in ops(o, "db.get"):
        if e[2][0] is R["blocks"] and st.variant(e[3]) == 1:
            raw = mk("vf", e[3], 1, 0)
            for g in G:
                if same(st, mk("hash", raw), g):
                    return mk("blk", raw), g
    return None


def direct_fields(P, adt):
    return [f["name"] for f in P.adts[adt]["variants"][0]["fields"]]


# ------------------------------------------------------------------ C18
@rule("C18")
def c18(cx):
    """every path of check_pow that accepts: the facts must bound the leading zero bits of a digest of the complete block
    hash, merkle root of the given transactions and complete nonce by those of the difficulty, and every path that refuses
    must contradict that bound; and count_leading_zeros must
    be the number of leading zero bits for every one of the 257 classes of 32-byte values"""
    P = cx.P
    need_prims(cx, "merkletree::MerkleTree::build_tree", "tools::count_leading_zeros")
    fn = cx.need("tools::check_pow")
    at = fn_where(P, fn)
    n = accepted(cx, fn, at, sym("transactions"))
    cx.check(n > 0, "C18|never", at, "no proof of work is ever accepted")
    for k in (1, 2):
        quietly(lambda: accepted(cx, fn, at, mk("arr", tuple(bsym("transaction_%d" % i, 32) for i in range(k))), True))
    clz_body(cx)


def accepted(cx, fn, at, txs, small=False):
    h, d, pw = bsym("hash", 32), bsym("difficulty", 32), sym("pow")
    n = 0
    for o in cx.run(fn, args={0: h, 1: d, 2: txs, 3: pw}, prims=prims("check_pow"), shapes=small):
        if o[0] != "ret":
            continue
        rejecting(cx, o, h, d, txs, pw, at)
        st = o[1].copy()
        if o[2].k == "bool" and not o[2].a[0] or not st.assume(o[2], True):
            continue
        n += 1
        digs = {x for c in facts_terms(st) for x in subterms(c) if x.k == "hash"}
        good = [x for x in digs if covers(x, h, txs, pw)]
        if not good:
            req(cx, False, "C18|digest", at, "a proof of work is accepted without hashing block hash, merkle root of the "
                "transactions and the whole nonce together (%s)" % "; ".join(show(x, 5) for x in digs), st, *digs)
            continue
        cx.ok("C18|digest", at, "complete digest")
        req(cx, any(st.prove(sub(T.clz(x), T.clz(d))) for x in good), "C18|threshold", at,
            "a proof of work is accepted although its digest may have fewer leading zero bits than the difficulty", st)
    return n


def rejecting(cx, o, h, d, txs, pw, at):
    """a path that refuses a proof of work must contradict its digest having enough leading zero bits"""
    st = o[1].copy()
    if o[2].k == "bool" and o[2].a[0] or not st.assume(o[2], False):
        return
    if any(vague(c) for c in facts_terms(st)):
        return
    for x in {x for c in facts_terms(st) for x in subterms(c) if x.k == "hash"}:
        if covers(x, h, txs, pw) and not st.assume(le(T.clz(d), T.clz(x)), True):
            cx.ok("C18|refused", at, "refused for want of leading zero bits")
            return
    cx.violated("C18|refused", at, "a proof of work is refused although its digest has as many leading zero bits as the difficulty", st)


def covers(x, h, txs, pw):
    """the digest is of a text that contains the three parts completely"""
    segs = as_segs(x.a[0])
    root = mk("mroot", txs)
    got = [s.a[0] if s.k == "cat" else s for s in segs]
    return all(p in got for p in (h, root, pw))


def clz_body(cx):
    fn = "tools::count_leading_zeros"
    at = fn_where(cx.P, fn)
    def one(z, bs):
        for o in cx.run(fn, args={0: mk("arr", bs)}, prims=prims("count_leading_zeros"), panics=True, shapes=True):
            if o[0] == "panic":
                cx.violated("C18|count|panic", at, "counting leading zero bits of a value with %d of them: %s" % (z, o[2][0]), o[1])
                continue
            lo, hi = lz_bounds(o[1], o[2])
            if lo is None:
                cx.undecided("C18|count", at, "count of %s" % show(o[2], 4))
            elif lo <= z <= hi and lo != hi:
                cx.undecided("C18|count", at, "count between %d and %d" % (lo, hi))
            else:
                cx.check(lo == hi == z, "C18|count", at, "a value with %d leading zero bits is counted as %d" % (z, lo), o[1], (o[2],))

    def corner(bs, rest, first):
        return tuple(integer(rest) if b.k == "sym" and b.a[0].startswith("d") else
                     integer(RANGE[b][first]) if b.k == "sym" and first is not None else b for b in bs)

    for z, bs in difficulty_classes():
        one(z, bs)
        for rest in (0, 255):       # the corners, where every byte after the first is known
            if any(b.k == "sym" and b.a[0].startswith("d") for b in bs):
                one(z, corner(bs, rest, None))
    if any(o[0] == "unk" and o[1] == "C18|count" for o in cx.obs):
        for z, bs in difficulty_classes():      # and the corners of the first byte that is not zero
            for rest, first in ((0, 0), (0, 1), (255, 0), (255, 1)):
                one(z, corner(bs, rest, first))


def lz_bounds(st, v):
    v = st.norm(v)
    if not is_int(v):
        return None, None
    c, d = lin_of(v)
    lo = hi = c
    for a, k in d.items():
        if a.k == "lz":
            n = a.a[1]
            n = n.a[0] if isinstance(n, V) else n
            l, h = byte_bounds(st, a.a[0])
            x, y = n - h.bit_length(), n - l.bit_length()
        else:
            x, y = atom_range(a)
        if x is None or y is None:
            return None, None
        lo += k * (x if k > 0 else y)
        hi += k * (y if k > 0 else x)
    return lo, hi
