"""C14, C15, C20 and C33: appending to chains and looking blocks up."""
from .base import *
from .r_codec import quietly
from .r_ledger import Effects, LPRIMS, last_field, writes_name, txcall, facts_terms
from .r_num import walk_events
from . import models as M
from .mcore import ret, W

CHAINS = {"main": MAIN, "derivative": DERIV}


def p_decode_main(eng, st, c):
    """a main chain block of these bytes, or an error (C02 checks the decoders)"""
    d = W(eng, st, c.args[0])
    s1 = st.copy()
    return [("ret", s1, err(mk("report", mk("badblock", d), ERRV))), ("ret", st, ok(mk("blk", d)))]


def p_decode_deriv(eng, st, c):
    d = W(eng, st, c.args[0])
    s1 = st.copy()
    return [("ret", s1, err(mk("report", mk("badblock", d), ERRV))), ("ret", st, ok(mk("dblk", d)))]


CPRIMS = dict(LPRIMS)
CPRIMS["block::deserialize_main_chain_block"] = p_decode_main
CPRIMS["block::DerivativeBlock::parse"] = p_decode_deriv


def chain_roles(cx, ch):
    """lock of the height, store of blocks by height, store of heights by hash, as the reading operations use them"""
    def go():
        C = CHAINS[ch]
        locks = {e[1] for o in cx.run(C + "get_height") for e in o[1].events() if e[0] == "acquire"}
        h = u256sym("wanted")
        blocks = {e[2][0] for o in cx.run(C + "find_raw_by_height", args={1: h}) for e in ops(o, "db.get")}
        w = bsym("hash", 32)
        refs = {e[2][0] for o in cx.run(C + "find_raw_by_hash", args={1: w}) for e in ops(o, "db.get") if e[2][1] is w}
        if len(blocks) != 1 or len(refs) != 1:
            # what a reading operation does not tell, appending may
            wb, wr = set(), set()
            for o in cx.run(C + "add_block", args={1: sym("block")}, seq_locks=False, prims=CPRIMS):
                for e in ops(o, "db.insert", "tx.insert"):
                    (wb if e[2][1].k == "be" else wr).add(e[2][0])
            blocks = blocks if len(blocks) == 1 else wb
            refs = refs if len(refs) == 1 else wr
        if len(locks) != 1 or len(blocks) != 1 or len(refs) != 1:
            cx.undecided("roles|" + ch, C + "find_raw_by_height", "height, blocks and references not identified (%d, %d, %d)"
                         % (len(locks), len(blocks), len(refs)))
            raise Undecided("roles")
        return {"height": locks.pop(), "blocks": blocks.pop(), "refs": refs.pop()}
    return cx.memo(("roles", ch), go)


def block_height(cx, ch, b):
    if ch == "main":
        return fld(mk("call", "block::Block::get_info", b), "height")
    for o in cx.run(blk("DerivativeBlock", "get_info"), args={0: b}):
        return fld(o[2], "height") if o[2].k != "adt" else o[2].a[2][3]


def heights(v):
    """every height field a condition mentions"""
    return [x for x in subterms(v) if x.k == "fld" and x.a[1] == "height"]


def is_height_key(st, k, n):
    """the key is the 32-byte big-endian form of n"""
    return same(st, k, M.mnum.be(32, n))


# ------------------------------------------------------------------ C14
@rule("C14")
def c14(cx):
    """every path of appending to either chain: a success holds the write lock of the height while it compares it with the
    block's height, stores the block under it, stores the reference and then raises it by one, in this order; any other
    result leaves the height alone; and no other operation of the chains writes height, blocks or references"""
    P = cx.P
    for ch, C in CHAINS.items():
        fn = cx.need(C + "add_block")
        at = fn_where(P, fn)
        R = chain_roles(cx, ch)
        b = sym("block")
        n = 0
        for o in cx.run(fn, args={1: b}, seq_locks=False, prims=CPRIMS):
            if o[0] != "ret" or exhausted(o[1]):
                continue
            n += is_ok(o)
            append_path(cx, "C14|%s" % ch, at, o, R, is_ok(o))
        cx.check(n > 0, "C14|%s|never" % ch, at, "no block is ever appended")
        others(cx, ch, C, R)


def exhausted(st):
    """a path on which the chain already holds 2^256 - 1 blocks"""
    return any(is_int(x) and st.prove(sub(x, integer(T.U256)))
               for c in facts_terms(st) for x in subterms(c) if x.k == "lkval")


def append_path(cx, key, at, o, R, success):
    st = o[1]
    H, B, F = R["height"], R["blocks"], R["refs"]
    lk = None           # value of the height seen under the write lock that is held
    wb = wr = None
    raised = 0
    evs = o[1].events()
    for e in evs:
        if e[0] == "acquire" and e[1] is H and e[2] == "w":
            lk = e[3]
        elif e[0] == "release" and e[1] is H and e[2] == "w":
            lk = None
        elif e[0] == "op" and e[1] in ("db.insert", "tx.insert") and e[2][0] is B:
            if lk is None:
                cx.check(False, key + "|lock", where(e), "a block is stored without the write lock of the height", st)
                continue
            cx.check(is_height_key(st, e[2][1], lk), key + "|slot", where(e),
                     "a block is stored under %s and not under the current height" % show(e[2][1], 4), st, (e[2][1],))
            cx.check(any(same(st, h, lk) for c in facts_terms(st) for h in heights(c)), key + "|height", where(e),
                     "a block is stored although its height was not found to be the current one", st)
            wb = e
        elif e[0] == "op" and e[1] in ("db.insert", "tx.insert") and e[2][0] is F:
            if lk is None:
                cx.check(False, key + "|lock", where(e), "a reference is stored without the write lock of the height", st)
                continue
            cx.check(is_height_key(st, e[2][2], lk), key + "|reference", where(e),
                     "the reference points at %s and not at the current height" % show(e[2][2], 4), st, (e[2][2],))
            wr = e
        elif e[0] == "op" and writes_name(e[1]) and e[2] and e[2][0] in (B, F):
            cx.check(False, key + "|" + e[1], where(e), "appending performs %s" % e[1], st)
        elif e[0] == "lockset" and e[1] is H:
            v = e[2]
            if lk is None:
                cx.check(False, key + "|lock", where(e), "the height is raised without its write lock", st)
                continue
            if same(st, v, lk):
                continue
            raised += 1
            cx.check(same(st, v, add(lk, integer(1))) and raised == 1, key + "|raise", where(e),
                     "the height becomes %s" % show(v, 4), st, (v,))
            cx.check(wb is not None and wr is not None, key + "|order", where(e),
                     "the height is raised before block and reference are stored", st)
    if not success:
        cx.check(raised == 0, key + "|failed", at, "the height is raised although the append fails", st)
        if not faults(o) and is_err(o) and (wb is not None or wr is not None):
            cx.check(False, key + "|refused", where(wb or wr), "a refused block is stored", st)
        return
    cx.check(raised == 1, key + "|advance", at, "an append succeeds and the height is raised %d times" % raised, st)
    if wb is None or wr is None:
        cx.check(False, key + "|stored", at, "an append succeeds without storing the block and its reference", st)
        return
    d = wb[2][2]
    cx.check(is_dump_of_block(cx, st, d), key + "|bytes", where(wb), "the block is stored as %s" % show(d, 4), st, (d,))
    cx.check(same(st, wr[2][1], mk("hash", d)), key + "|index", where(wr), "the block is indexed by %s" % show(wr[2][1], 4), st, (wr[2][1],))


def is_dump_of_block(cx, st, d):
    b = sym("block")
    if same(st, d, mk("vf", mk("call", "block::Block::dump", b), 0, 0)):
        return True
    fn = blk("DerivativeBlock", "dump")
    if not cx.has(fn):
        return False
    for o in cx.run(fn, args={0: b}):
        if is_ok(o) and same(st, d, okval(o)):
            return True
    return False


def others(cx, ch, C, R):
    """no other operation touches what an append maintains"""
    P = cx.P
    for fn in public_methods(P, C):
        m = fn[len(C):]
        if m in ("add_block", "new"):
            continue
        try:
            outs = cx.run(fn, prims=CPRIMS)
        except Undecided:
            continue
        for o in outs:
            for e in walk_events(o[1].events()):
                if e[0] == "lockset" and e[1] is R["height"] and not same(o[1], e[2],
                                                                          mk("lkval", R["height"], integer(0))):
                    cx.check(False, "C14|%s|%s|height" % (ch, m), where(e), m + " changes the height", o[1])
                elif e[0] == "op" and writes_name(e[1]) and e[2] and e[2][0] in (R["blocks"], R["refs"]):
                    cx.check(False, "C14|%s|%s|store" % (ch, m), where(e), "%s performs %s on %s" % (m, e[1], show(e[2][0], 2)), o[1])
        cx.ok("C14|%s|%s" % (ch, m), fn_where(P, fn), "leaves the chain alone")


def public_methods(P, C):
    return sorted(p for p, b in P.bodies.items() if p.startswith(C) and "{" not in p and b.get("pub"))


# ------------------------------------------------------------------ C15
@rule("C15")
def c15(cx):
    """on every path of every lookup of both chains: a block is returned only if the facts put the height below the chain
    height and it is the value stored under exactly that height (by hash: whose hash is the wanted one); nothing is returned
    only if the facts say the height is not below the chain height, nothing is stored, or the hash differs"""
    P = cx.P
    for ch, C in CHAINS.items():
        R = chain_roles(cx, ch)
        lk = mk("lkval", R["height"], integer(0))
        RANGE.setdefault(lk, (0, T.U256))
        h = u256sym("wanted")
        w = bsym("hash", 32)
        # the height itself
        for o in cx.run(cx.need(C + "get_height")):
            if o[0] == "ret":
                cx.check(same(o[1], o[2], lk), "C15|%s|get_height" % ch, fn_where(P, C + "get_height"),
                         "the height is reported as %s" % show(o[2], 4), o[1], (o[2],))
        for m, kind in (("find_raw_by_height", "h"), ("find_by_height", "h"), ("find_raw_by_hash", "w"), ("find_by_hash", "w"),
                        ("get_last_raw_block", "l"), ("get_last_block", "l")):
            fn = cx.need(C + m)
            at = fn_where(P, fn)
            args = {"h": {1: h}, "w": {1: w}, "l": {}}[kind]
            some_ = 0
            for o in cx.run(fn, args=args, prims=CPRIMS, merge=False):
                if not is_ok(o):
                    if is_err(o) and not faults(o) and "badblock" not in {x.k for x in subterms(o[2])}:
                        cx.check(False, "C15|%s|%s|error" % (ch, m), at, "a lookup fails without a storage error", o[1], (o[2],))
                    continue
                some_ += lookup_path(cx, "C15|%s|%s" % (ch, m), at, o, R, lk, kind, h, w, m)
            cx.check(some_ > 0, "C15|%s|%s|never" % (ch, m), at, "never returns a block")
        quietly(lambda: appended(cx, ch, C, R))


def appended(cx, ch, C, R):
    """each lookup, continued from every path on which an append succeeds, finds exactly the appended bytes"""
    for o in cx.run(cx.need(C + "add_block"), args={1: sym("block")}, prims=CPRIMS):
        if not is_ok(o) or exhausted(o[1]):
            continue
        wb = [e for e in o[1].events() if e[0] == "op" and e[1] in ("db.insert", "tx.insert") and e[2][0] is R["blocks"]]
        hs = [e for e in o[1].events() if e[0] == "lockset" and e[1] is R["height"]]
        if not wb or not hs:
            continue                        # C14
        d = wb[-1][2][2]
        h = add(hs[-1][2], integer(-1))
        dig = mk("hash", d)
        ALEN.setdefault(dig, 32)
        for m, a in (("find_raw_by_height", h), ("find_raw_by_hash", dig), ("get_last_raw_block", None)):
            fn = cx.need(C + m)
            for q in cx.run(fn, args={} if a is None else {1: a}, prims=CPRIMS, st=o[1]):
                if faults(q) or not is_ok(q):
                    if q[0] == "ret" and is_err(q) and not faults(q):
                        cx.check(False, "C15|%s|%s|appended" % (ch, m), fn_where(cx.P, fn),
                                 "looking up the block that was just appended fails without a storage error", q[1], (q[2],))
                    continue
                r = okval(q)
                i = q[1].variant(r)
                v = r.a[2][0] if r.k == "adt" and r.a[1] == 1 else mk("vf", r, 1, 0) if i == 1 else None
                cx.check(v is not None and same(q[1], v, d), "C15|%s|%s|appended" % (ch, m), fn_where(cx.P, fn),
                         "after an append of %s the lookup returns %s" % (show(d, 3), show(r, 4)), q[1], (r, d))


def lookup_path(cx, key, at, o, R, lk, kind, h, w, m):
    st = o[1]
    r = okval(o)
    i = st.variant(r)
    ref = mk("dbget", R["refs"], w, integer(0))
    refp = mk("vf", ref, 1, 0)
    if kind == "h":
        H = h
    elif kind == "l":
        H = add(lk, integer(-1))
    else:
        H = M.mnum.frombe(refp, 32)
    # the stored value: keys that provably are the wanted height
    gets = [e for e in ops(o, "db.get") if e[2][0] is R["blocks"]]
    mine = [e for e in gets if is_height_key(st, e[2][1], H) or kind == "w" and refp in subterms(e[2][1])]
    if i == 1 or r.k == "adt" and r.a[1] == 1:
        v = r.a[2][0] if r.k == "adt" else mk("vf", r, 1, 0)
        raw = [x for x in subterms(v) if x.k == "vf" and x.a[0].k == "dbget" and x.a[0].a[0] is R["blocks"]]
        if not raw:
            cx.check(False, key + "|value", at, "returns %s, which was not read from the blocks" % show(v, 4), st, (v,))
            return 0
        if len(set(raw)) > 1 or m.find("raw") >= 0 and v is not raw[0] or "raw" not in m and not decoded_from(cx, v, raw[0]):
            cx.check(False, key + "|value", at, "returns %s" % show(v, 4), st, (v,))
        g = raw[0].a[0]
        if kind == "w":
            cx.check(st.truth(eq(mk("hash", raw[0]), w)) is True or same(st, mk("hash", raw[0]), w), key + "|hash", at,
                     "a block is returned for a hash although the path does not establish that it has that hash", st)
            k = g.a[1]
            n = k.a[1] if k.k == "be" else None
            if n is not None:
                cx.check(st.prove(add(sub(lk, n), integer(-1))), key + "|below", at,
                         "a block above the end of the chain can be returned", st)
            return 1
        cx.check(is_height_key(st, g.a[1], H), key + "|slot", at,
                 "returns the block stored under %s" % show(g.a[1], 4), st, (g.a[1],))
        below = st.prove(add(sub(lk, H), integer(-1)))
        if kind == "l":
            below = below or st.prove(add(lk, integer(-1)))
        cx.check(below, key + "|below", at, "a block that is not below the chain height can be returned", st)
        return 1
    if not (i == 0 or r.k == "adt" and r.a[1] == 0):
        cx.undecided(key, at, "result %s" % show(r, 3))
        return 0
    # nothing is returned: for a reason?
    if kind == "w" and st.variant(ref) == 0:
        cx.ok(key + "|nothing", at, "no reference")
        return 0
    if kind != "w" and st.prove(sub(H, lk)) or kind == "l" and st.prove(sub(integer(0), lk)):
        cx.ok(key + "|nothing", at, "not below the chain height")
        return 0
    for e in mine:
        if st.variant(e[3]) == 0:
            cx.ok(key + "|nothing", at, "nothing stored")
            return 0
        p = mk("vf", e[3], 1, 0)
        if kind == "w" and (st.truth(eq(mk("hash", p), w)) is False or differ(st, mk("hash", p), w)):
            cx.ok(key + "|nothing", at, "another block")
            return 0
    if kind == "w":
        hs = [x for c in list(st.bools) + list(st.lin) for x in subterms(c) if refp in subterms(x) and is_int(x)]
        if any(st.prove(sub(x, lk)) for x in hs):
            cx.ok(key + "|nothing", at, "not below the chain height")
            return 0
    cx.check(False, key + "|nothing", at, "nothing is returned although a block is stored below the chain height", st,
             tuple(e[2][1] for e in gets))
    return 0


def decoded_from(cx, v, raw):
    """v is the decoded form of the stored bytes"""
    for x in subterms(v):
        if x.k == "blk":
            return x.a[0] is raw and v is x
        if x.k == "dblk":
            y = x.a[0]
            return (y.k == "slice" and y.a[0] is raw and y.a[1] is integer(1)) and v is x
    return True         # decoded by other means: C02 is about that


# ------------------------------------------------------------------ C20
def tree_roles(cx):
    """the stores of the main chain as fields of the tree"""
    def go():
        R = chain_roles(cx, "main")
        out = {}
        for o in cx.run(TREE + "get_main_chain"):
            if o[0] == "ret":
                base = o[2]
                for k, v in R.items():
                    x = v
                    names = []
                    while x.k == "fld":
                        names.append(x.a[1])
                        x = x.a[0]
                    y = base
                    for n in reversed(names):
                        y = fld(y, n)
                    out[k] = y
        return out
    return cx.memo("tree_roles", go)


def last_get(R):
    lk = mk("lkval", R["height"], integer(0))
    RANGE.setdefault(lk, (0, T.U256))
    return mk("dbget", R["blocks"], M.mnum.be(32, add(lk, integer(-1))), integer(0))


def is_last_block(v, R):
    """a block decoded from what is stored at the greatest height"""
    g = mk("vf", last_get(R), 1, 0)
    if v.k == "blk":
        return v.a[0] is g
    return v.k in ("adt", "dblk") and g in subterms(v)


@rule("C20")
def c20(cx):
    """on every path of add_new_block that stores anything, the facts say that the block's validation against the block
    stored at the greatest height answered true; a success has stored the block at the current height and, in a loop over all
    supplied transactions, each of them under its hash"""
    P = cx.P
    fn = cx.need(TREE + "add_new_block")
    at = fn_where(P, fn)
    R = tree_roles(cx)
    b, txs = sym("block"), sym("transactions")
    g = last_get(R)
    n = 0
    for o in cx.run(fn, args={1: b, 2: txs}, prims=CPRIMS):
        if o[0] != "ret":
            continue
        st = o[1]
        writes = [e for e in walk_events(st.events()) if e[0] == "op" and writes_name(e[1])]
        if writes:
            good = False
            for v, i in list(st.vars.items()):
                if v.k == "call" and v.a[0] == "block::Block::validate" and v.a[1] is b and i == 0 and \
                        st.truth(mk("vf", v, 0, 0)) is True:
                    prev = v.a[2]
                    if prev.k == "adt" and prev.a[1] == 1:
                        good = good or is_last_block(prev.a[2][0], R)
                    elif prev.k == "adt" and prev.a[1] == 0:
                        good = good or st.variant(g) == 0
            cx.check(good, "C20|validated", where(writes[0]),
                     "a block received from outside is stored although it was not validated against the last block", st)
        if not is_ok(o):
            if writes and is_err(o) and not failed_after(st, writes[0]):
                cx.check(False, "C20|refused", where(writes[0]), "something is stored although the block is refused", st)
            continue
        n += 1
        ins = [e for e in ops(o, "db.insert") if e[2][0] is R["blocks"]]
        cx.check(len(ins) == 1 and is_dump_of_block(cx, st, ins[0][2][2]), "C20|stored", at, "the block is not stored", st,
                 tuple(e[2][2] for e in ins))
        stored_all(cx, o, txs, at)
    cx.check(n > 0, "C20|never", at, "no block is ever accepted")


def failed_after(st, write):
    """the path ends because an operation or a serialization failed, not because the block was refused"""
    for e in walk_events(st.events()):
        if e[0] == "fault":
            return True
    return any(v.k == "call" and v.a[0].endswith("::dump") and i == 1 for v, i in st.vars.items())


def stored_all(cx, o, txs, at):
    """a loop over all transactions stores each under its hash"""
    from .r_ledger import record_dbs
    st = o[1]
    names = {last_field(d) for d in record_dbs(cx)}
    ln = length(txs)
    if st.prove(sub(integer(0), ln)):
        return
    reason = "not every supplied transaction is stored"
    for e in st.events():
        if e[0] == "op" and e[1] == "db.batch" and last_field(e[2][0]) in names:
            cx.undecided("C20|transactions", where(e), "batch")
            return
        if e[0] != "loop":
            continue
        kval, bv, k = e[1]
        if not same(st, kval, ln):
            continue
        good = bool(e[2])
        for bt in e[2]:
            el = elem(txs, k)
            mine = [x for x in bt if x[0] == "op" and x[1] in ("db.insert", "tx.insert") and last_field(x[2][0]) in names]
            d = {x for y in mine for x in (y[2][2],)}
            fine = False
            for x in mine:
                val = x[2][2]
                if el in subterms(val) and val in (mk("vf", txcall("dump", el), 0, 0),) or el in subterms(val) and val.k in ("seq", "vf"):
                    if same(st, x[2][1], mk("hash", val)) or any(y.k == "call" and y.a[0].endswith("::hash") and el in subterms(y)
                                                                 for y in subterms(x[2][1])) or el in subterms(x[2][1]):
                        fine = True
            good = good and fine
        if good:
            cx.ok("C20|transactions", at, "every supplied transaction is stored")
            return
        reason = "an iteration over the supplied transactions stores none"
    if st.unk:
        cx.undecided("C20|transactions", at, reason)
    else:
        cx.bad("C20|transactions", at, reason)


# ------------------------------------------------------------------ C33
@rule("C33")
def c33(cx):
    """every success path of get_derivative_chain returns the entry the map holds under the owner, or opens a chain in a
    directory named by an injective encoding of the owner, anchored at the hash of the block stored at the greatest height,
    and enters it in the map under the same owner; opening a chain keeps its directory and genesis"""
    P = cx.P
    fn = cx.need(TREE + "get_derivative_chain")
    at = fn_where(P, fn)
    R = tree_roles(cx)
    ow = bsym("owner", 33)
    hits = opens = 0
    for o in cx.run(fn, args={1: ow}, prims=CPRIMS):
        if not is_ok(o):
            continue
        st = o[1]
        r = okval(o)
        got = [x for x in list(st.vars) if x.k == "mapget" and same(st, x.a[1], ow)]
        if any(st.variant(x) == 1 and same(st, r, mk("vf", x, 1, 0)) for x in got):
            hits += 1
            cx.ok("C33|hit", at, "the chain in memory")
            continue
        opened = [e for e in ops(o, "db.open")]
        if not opened:
            cx.check(False, "C33|value", at, "returns %s" % show(r, 4), st, (r,))
            continue
        opens += 1
        cx.check(any(st.variant(x) == 0 for x in got), "C33|lookup", at,
                 "a chain is opened although the owner was not found to have none in memory", st)
        # on disk: the directory is an injective image of the owner
        for e in opened + [x for x in st.events() if x[0] in ("op", "fault") and x[1] == "fs.open"]:
            p = e[2][0]
            cx.check(injective_in(p, ow), "C33|directory", where(e), "%s does not tell owners apart" % show(p, 6), st, (p,))
        # in memory: entered under the same owner
        final = None
        for x in got:
            final = final or map_final(cx, o, x.a[0])
        if final is not None:
            k, v = final
            cx.check(same(st, k, ow), "C33|entry", at, "the chain is entered under %s" % show(k, 4), st, (k,))
            cx.check(same_chain(v, r), "C33|entry|value", at, "the chain entered is %s and the one returned %s" % (show(v, 3), show(r, 3)),
                     st, (v, r))
        else:
            cx.check(False, "C33|entry", at, "a chain that was opened is not kept in memory", st)
        # anchored at the last block
        fs_ = dict((n[-1], x) for n, x in named_fields(P, r))
        gen = fs_.get("genesis_hash")
        if gen is None:
            cx.undecided("C33|genesis", at, "genesis not identified")
        elif any(x.k == "filedata" for x in subterms(gen)):
            cx.ok("C33|genesis", at, "as stored")
        else:
            good = any(x.k == "call" and x.a[0] == "block::Block::hash" and is_last_block(x.a[1], R) for x in subterms(gen))
            good = good or any(x.k == "hash" and mk("vf", last_get(R), 1, 0) is x.a[0] for x in subterms(gen))
            cx.check(good, "C33|genesis", at, "a new derivative chain is anchored at %s" % show(gen, 5), st, (gen,))
    cx.check(hits > 0, "C33|never|hit", at, "the chain in memory is never returned")
    cx.check(opens > 0, "C33|never|open", at, "no chain is ever opened")


def injective_in(p, ow):
    """the path contains the whole owner, encoded injectively"""
    def inj(v):
        if v is ow:
            return True
        if v.k == "hex":
            return inj(v.a[0])
        if v.k in ("seq", "path", "str", "fmt"):
            return any(inj(x) for x in children(v))
        return False
    return inj(p)


def same_chain(a, b):
    return a is b


def map_final(cx, o, mp):
    """(key, value) the path last put into the map"""
    def root(v):
        while v.k in ("mapins", "mapdel"):
            v = v.a[0]
        return v
    out = None
    for e in o[1].events():
        if e[0] == "map" and root(e[2]) is mp:
            out = (e[3], e[4]) if e[1] == "insert" else None
    return out
