"""C37 and C38: the genesis and what epochs issue; what blocks and transactions say about themselves."""
from .base import *
from .r_ledger import Effects, ledger_dbs, resolve_ref, decode, facts_terms, writes_name, txcall
from .r_chain import CHAINS, CPRIMS, chain_roles
from .r_store import constructed, LPRIMS_CHAIN
from .r_block import own_fields, BPRIMS, params, need_prims
from .r_codec import opt_eq, dumps, concrete_self, getter
from . import models as M
from .mcore import ret, W

VARYING = ("sym", "lkval", "filedata", "stream", "unz", "dbget", "dbhas", "dbprev", "dblast", "fld", "dirents", "dirent", "mtype", "ftype",
           "fsexists")


def root_address(P):
    s = P.statics.get("static_values::ROOT_PUBLIC_ADDRESS")
    if s is None or not s.get("bytes"):
        raise Missing("static_values::ROOT_PUBLIC_ADDRESS")
    return mk("bytes", tuple(s["bytes"]))


def cycle(P):
    return mk("static", "static_values::COINS_PER_CYCLE")


def is_cycle(st, v):
    """the coins of a cycle, spelled as the constant or as its number"""
    if v is None:
        return False
    c = cycle(None)
    if same(st, v, c):
        return True
    r = RANGE.get(c, (0, None))
    return r[0] == r[1] and same(st, v, integer(r[0]))


@rule("C37")
def c37(cx):
    """every path of opening the main chain with height zero: one block is appended, at height zero, whose bytes mention
    nothing but constants, start with the tag of summarize blocks and list the root account; every path of opening the tree
    with only that block gives the root account exactly the coins of a cycle unless a balance is stored; every rollover
    leaves the root account exactly the coins of a cycle"""
    for part in (genesis, grant, refill):
        try:
            part(cx, cx.P)
        except Undecided:
            pass


def height_name(cx, ch):
    return chain_roles(cx, ch)["height"].a[1]


def height_of(cx, o, v):
    """(height the chain was created with, height afterwards)"""
    nm = height_name(cx, "main")
    for n, x in named_fields(cx.P, v):
        if n[-1] == nm and x.k == "lock":
            h0 = h = x.a[0]
            for e in o[1].events():
                if e[0] == "lockset" and e[1] is x:
                    h = e[2]
            return h0, h
    return None, None


def genesis(cx, P):
    fn = CHAINS["main"] + "new"
    at = fn_where(P, cx.need(fn))
    R = chain_roles(cx, "main")
    seen = []
    for o, v, opens, reads in constructed(cx, "main"):
        st = o[1]
        h0, h = height_of(cx, o, v)
        if h0 is None:
            cx.undecided("C37|genesis", at, "height of a new chain not identified")
            continue
        B = resolve_ref(P, v, R["blocks"])
        ins = [e for e in ops(o, "db.insert", "tx.insert") if e[2][0] is B]
        if not any(x.k == "filedata" for x in subterms(h0)):
            cx.check(same(st, h0, integer(0)), "C37|genesis|empty", at, "a chain without a configuration starts with height %s"
                     % show(h0, 3), st, (h0,))
        if not same(st, h0, integer(0)):
            continue
        if len(ins) != 1:
            cx.check(False, "C37|genesis|count", at, "a chain without blocks starts with %d blocks" % len(ins), st)
            continue
        e = ins[0]
        cx.check(same(st, e[2][1], M.mnum.be(32, integer(0))), "C37|genesis|height", where(e), "the first block is stored under %s"
                 % show(e[2][1], 4), st, (e[2][1],))
        cx.check(same(st, h, integer(1)), "C37|genesis|counted", where(e), "the height after the first block is %s" % show(h, 4), st, (h,))
        b = e[2][2]
        odd = [x for x in subterms(b) if x.k in VARYING]
        if not odd and vague(b):
            cx.undecided("C37|genesis|constant", where(e), "the bytes of the first block are not understood: %s" % show(b, 5))
            continue
        cx.check(not odd, "C37|genesis|constant", where(e), "the first block depends on %s" % ", ".join(show(x, 3) for x in odd[:2]), st,
                 (b,))
        seen.append((st, b, e))
        root = root_address(P)
        leaf = [x for x in subterms(b) if x.k == "hash"]
        it = [y for x in leaf for y in bytes_of(x.a[0])]
        cx.check(contains(it, root.a[0]), "C37|genesis|root account", where(e), "the first block does not list the root account: %s"
                 % show(b, 8), st, (b,))
        D = "block::deserialize_main_chain_block"
        if cx.has(D):
            for x in cx.run(D, args={0: b}, st=st):
                if is_err(x):
                    cx.check(False, "C37|genesis|readable", where(e), "the first block cannot be read back", x[1], (b,))
                elif is_ok(x):
                    kinds = {y.a[0] for y in subterms(okval(x)) if y.k == "adt" and y.a[0].startswith("block::") and y.a[0].endswith("Block")}
                    cx.check(kinds == {"block::SummarizeBlock"}, "C37|genesis|readable", where(e), "the first block is read back as %s"
                             % show(okval(x), 4), x[1], (okval(x),))
    for st, b, e in seen[1:]:
        cx.check(same(st, alpha(b), alpha(seen[0][1])), "C37|genesis|unique", where(e), "two different first blocks: %s"
                 % show(b, 6), st, (b,))
    cx.check(bool(seen), "C37|genesis|never", at, "no chain starts with a first block")


def bytes_of(v):
    out = []
    for s in as_segs(v):
        if s.k == "b":
            out.append(s.a[0].a[0] if s.a[0].k == "int" else None)
        elif s.k == "cat" and s.a[0].k in ("bytes", "arr", "str"):
            x = s.a[0].a[0]
            out.extend(y if isinstance(y, int) else y.a[0] if isinstance(y, V) and y.k == "int" else None for y in x)
        else:
            out.append(None)
    return out


def contains(xs, ys):
    n = len(ys)
    return any(tuple(xs[i:i + n]) == tuple(ys) for i in range(len(xs) - n + 1))


def grant(cx, P):
    fn = cx.need(TREE + "new")
    at = fn_where(P, fn)
    d0 = ledger_dbs(cx)["coins"]
    root = root_address(P)
    n = 0
    for o in cx.run(fn, prims=LPRIMS_CHAIN, limit=200, merge=False):
        if not is_ok(o):
            continue
        v = okval(o)
        h0, h = height_of(cx, o, v)
        d = resolve_ref(P, v, d0)
        if h is None or d is None:
            cx.undecided("C37|grant", at, "stores of a new tree not identified")
            continue
        fx = Effects(o)
        st = o[1].copy()
        later = o[1].copy()
        if later.assume(ieq(h, integer(1)), False):
            for w in fx.writes:
                if w[0] is d:
                    cx.check(False, "C37|grant|later", where(w[4]), "opening a tree beyond its first block changes a balance", later)
        if not st.assume(ieq(h, integer(1)), True):
            continue
        n += 1
        ws = [w for w in fx.writes if w[0] is d]
        for w in ws:
            had = [st.variant(r[2]) for r in fx.reads if r[0] is d and same(st, r[1], w[1])]
            if w[4][1] in ("db.insert", "tx.insert") and 0 not in had:
                text = "coins are granted to an account that %s" % ("has a balance" if 1 in had else "may have a balance")
                cx.check(False, "C37|grant|again", where(w[4]), text, st, tuple(r[2] for r in fx.reads if r[0] is d))
            else:
                cx.check(1 not in had, "C37|grant|again", where(w[4]), "coins are granted to an account that has a balance", st)
            cx.check(same(st, w[1], root), "C37|grant|account", where(w[4]), "a new tree gives coins to %s" % show(w[1], 3), st, (w[1],))
            x = decode(w[2]) if w[2] is not None else None
            cx.check(is_cycle(st, x), "C37|grant|amount", where(w[4]), "the root account starts with %s"
                     % (show(x, 4) if x is not None else show(w[2], 4) if w[2] is not None else "nothing"), st,
                     (x,) if x is not None else (w[2],) if w[2] is not None else ())
        if ws:
            continue
        if fx.other:
            cx.undecided("C37|grant|missing", at, "effects not understood")
            continue
        had = [x for x in st.vars if x.k == "dbget" and x.a[0] is d and same(st, x.a[1], root) and st.variant(x) == 1]
        if had:
            cx.ok("C37|grant|missing", at, "a balance is stored")
            continue
        cx.violated("C37|grant|missing", at, "a tree with only its first block is opened without giving the root account its coins", st)
    cx.check(n > 0, "C37|grant|never", at, "no path opens a tree with only its first block")


def refill(cx, P):
    from .r_epoch import EMIT
    from .r_misc import p_copytree
    fn = cx.need(EMIT)
    at = fn_where(P, fn)
    d = ledger_dbs(cx)["coins"]
    root = root_address(P)
    pr = dict(BPRIMS)
    pr["tools::copy_dir_all"] = p_copytree
    ps = params(cx, fn)
    args = {ps["transactions"]: sym("transactions")} if ps and "transactions" in ps else {}
    n = 0
    for o in cx.run(fn, args=args, prims=pr):
        if not is_ok(o) or okval(o).k != "adt" or not okval(o).a[0].endswith("::SummarizeBlock"):
            continue
        st = o[1]
        fx = Effects(o)
        n += 1
        ws = [w for w in fx.writes if w[0] is d and same(st, w[1], root)]
        for w in fx.writes:
            if w[0] is d and w not in ws:
                cx.check(False, "C37|refill|account", where(w[4]), "a rollover changes the coins of %s" % show(w[1], 3), st, (w[1],))
        if not ws:
            cx.check(False, "C37|refill|missing", at, "a rollover does not give the root account its coins", st,
                     tuple(w[1] for w in fx.writes if w[0] is d))
            continue
        w = ws[-1]
        x = decode(w[2]) if w[2] is not None else None
        cx.check(is_cycle(st, x), "C37|refill|amount", where(w[4]), "a rollover sets the root account to %s"
                 % (show(x, 4) if x is not None else "nothing"), st, (x,) if x is not None else (w[2],) if w[2] is not None else ())
    cx.check(n > 0, "C37|refill|never", at, "no rollover is ever performed")


# ------------------------------------------------------------------ C38
@rule("C38")
def c38(cx):
    """every path of the accessors of the three block kinds returns the field it is named after; the kind reported is the tag
    the block is written with, and the tag decoder maps every byte to the kind with that number or refuses it; verify_block
    is true exactly for the block's own previous hash; a transaction made from its parts carries them; blocks compare by
    their timestamps alone, the same way in the three comparisons"""
    for part in (block_accessors, block_hash, tags, parts_kept, block_order):
        try:
            part(cx, cx.P)
        except Undecided:
            pass


def own_terms(kind, s):
    """what each accessor of a block kind must return"""
    di = fld(s, "default_info")
    tb = kind == "TransactionBlock"
    return {"get_info": di, "get_founder": fld(di, "founder"),
            "get_merkle_root": fld(s, "merkle_tree_root") if kind != "DerivativeBlock" else mk("mroot", mk("arr", ())),
            "get_fee": fld(s, "fee") if tb else integer(0),
            "transactions": some(fld(s, "transactions")) if tb else adt(OPTION, 0)}


def same_value(st, a, b):
    if a.k == "ref":
        return False
    return opt_eq(st, a, b) or opt_eq(st, deepnorm(st, a), deepnorm(st, b))


def block_accessors(cx, P):
    need_prims(cx, "merkletree::MerkleTree::build_tree")
    for kind in KINDS:
        s = sym("block")
        for m, want in own_terms(kind, s).items():
            fn = blk(kind, m)
            if not cx.has(fn):
                cx.undecided("C38|%s|%s" % (kind, m), fn, "accessor not found")
                continue
            at = fn_where(P, fn)
            for o in cx.run(fn, args={0: s}):
                if o[0] != "ret":
                    continue
                cx.check(same_value(o[1], o[2], want), "C38|%s|%s" % (kind, m), at, "%s of a %s gives %s instead of %s"
                         % (m, kind, show(o[2], 4), show(want, 4)), o[1], (o[2],))
        fn = blk(kind, "verify_block")
        if cx.has(fn):
            at = fn_where(P, fn)
            h = bsym("hash", 32)
            own = fld(fld(s, "default_info"), "previous_hash")
            ALEN.setdefault(own, 32)
            for o in cx.run(fn, args={0: s, 1: h}):
                if o[0] != "ret":
                    continue
                for want in (True, False):
                    t = o[1].copy()
                    if o[2].k == "bool":
                        if o[2].a[0] is not want:
                            continue
                    elif not t.assume(o[2], want):
                        continue
                    t2 = t.copy()
                    if want:
                        cx.check(same(t, h, own) or all_equal(t, h, own), "C38|%s|verify_block" % kind, at,
                                 "a %s is accepted as following a hash that is not its previous hash" % kind, t, (o[2],))
                    else:
                        cx.check(not t2.assume(eq(h, own), True), "C38|%s|verify_block|refused" % kind, at,
                                 "a %s is refused as following its own previous hash" % kind, t, (o[2],))


def block_hash(cx, P):
    """the hash of a block is the digest of the bytes it is serialized to"""
    for kind in KINDS:
        fn, dp = cx.need(blk(kind, "hash")), cx.need(blk(kind, "dump"))
        fns = [f for f in (fn, "block::%s::hash" % kind) if f in P.bodies]
        written = [(st, alpha(v)) for st, v in dumps(cx, dp, concrete_self(cx, dp))]
        for f in fns:
            at = fn_where(P, f)
            n = 0
            for o in cx.run(f, args={0: concrete_self(cx, f)}):
                if not is_ok(o):
                    continue
                n += 1
                v = okval(o)
                if v.k != "hash":
                    cx.check(False, "C38|%s|hash" % kind, at, "the hash of a %s is %s" % (kind, show(v, 4)), o[1], (v,))
                    continue
                x = v.a[0]
                cx.check(any(same(o[1], alpha(x), d) or same_value(o[1], x, d) for _, d in written), "C38|%s|hash" % kind, at,
                         "the hash of a %s is not that of the bytes it is serialized to: %s" % (kind, show(x, 4)), o[1], (x,))
            cx.check(n > 0, "C38|%s|hash|never" % kind, at, "a %s never has a hash" % kind)


def all_equal(st, a, b):
    """every byte compared and found equal"""
    for q in st.alls:
        if q[0] != "all":
            continue
        n = st.norm(q[2])
        if n.k != "int" or n.a[0] < 32:
            continue
        e = ieq(mk("elem", a, q[1]), mk("elem", b, q[1]))
        if any(v is True and c is e for c, v in q[3]):
            return True
    return False


def tags(cx, P):
    A = P.adts.get("dump_headers::Headers")
    if A is None:
        raise Missing("dump_headers::Headers")
    num = {i: v["discr"] for i, v in enumerate(A["variants"])}
    wrote = {}
    for kind in KINDS:
        at = fn_where(P, cx.need(blk(kind, "get_type")))
        tag = set()
        p = blk(kind, "dump")
        for st, v in dumps(cx, p, concrete_self(cx, p)):
            x = elem(v, integer(0))
            tag.add(x.a[0] if x.k == "int" else None)
        if len(tag) != 1 or None in tag:
            cx.undecided("C38|%s|tag" % kind, at, "the tag a %s is written with is %s" % (kind, tag))
            continue
        tag = tag.pop()
        wrote[kind] = tag
        for o in cx.run(blk(kind, "get_type"), args={0: sym("block")}):
            if o[0] != "ret":
                continue
            i = o[2].a[1] if o[2].k == "adt" else None
            cx.check(i is not None and num.get(i) == tag, "C38|%s|get_type" % kind, at, "a %s says it is a %s" % (kind,
                     A["variants"][i]["name"] if i is not None else show(o[2], 3)), o[1], (o[2],))
    tag = set()
    p = cx.need(TXT + "dump")
    for st, v in dumps(cx, p, concrete_self(cx, p)):
        x = elem(v, integer(0))
        tag.add(x.a[0] if x.k == "int" else None)
    if len(tag) == 1 and None not in tag:
        wrote["Transaction"] = tag.pop()
    fn = "dump_headers::Headers::from_u8"
    if not cx.has(fn):
        cx.undecided("C38|from_u8", fn, "not found")
        return
    at = fn_where(P, fn)
    b = sym("byte")
    RANGE[b] = (0, 255)
    outs = [o for o in cx.run(fn, args={0: b}) if o[0] == "ret"]
    for o in outs:
        if not is_ok(o):
            continue
        v = okval(o)
        if v.k != "adt":
            cx.undecided("C38|from_u8", at, "result %s" % show(v, 3))
            continue
        cx.check(same(o[1], b, integer(num[v.a[1]])), "C38|from_u8|kind", at, "a byte other than %d is read as the tag of a %s"
                 % (num[v.a[1]], A["variants"][v.a[1]]["name"]), o[1], (b,))
    for kind, n in sorted(wrote.items()):
        for o in outs:
            if is_err(o):
                s = o[1].copy()
                cx.check(not s.assume(ieq(b, integer(n)), True), "C38|from_u8|refused", at, "the tag of a %s is not known" % kind, o[1])


GETTERS = {"get_sender": "sender", "get_receiver": "receiver", "get_timestamp": "timestamp", "get_signature": "signature",
           "get_amount": "amount", "get_data": "data"}


# what callers pass, by position
SIGNATURES = {
    "transaction::Transaction::new_signed": (("sender", "33]"), ("receiver", "33]"), ("timestamp", "u64"), ("amount", "U256"),
                                             ("data", "Option<"), ("signature", "64]")),
    "transaction::Transaction::new": (("sender", "33]"), ("receiver", "33]"), ("timestamp", "u64"), ("amount", "U256"),
                                      ("private_key", "32]"), ("data", "Option<")),
    "block::BasicInfo::new": (("timestamp", "u64"), ("pow", "32]"), ("previous_hash", "32]"), ("height", "U256"),
                              ("difficulty", "32]"), ("founder", "33]")),
    "block::TransactionBlock::new": (("fee", "U256"), ("default_info", "BasicInfo"), ("merkle_tree_root", "32]"),
                                     ("transactions", "Vec<")),
}


def signature(P, fn):
    b = P.bodies[fn]
    sg = SIGNATURES[fn]
    if b["argc"] != len(sg):
        return None
    for i, (n, t) in enumerate(sg):
        if t not in P.tstr(b["locals"][i + 1]["t"]):
            return None
    return {n: i for i, (n, _) in enumerate(sg)}


def parts_kept(cx, P):
    """values built from parts carry the parts under the names they were given with"""
    for ctor, signed in (("transaction::Transaction::new_signed", True), ("transaction::Transaction::new", False)):
        fn = cx.need(ctor)
        at = fn_where(P, fn)
        ps = signature(P, fn)
        if ps is None:
            cx.undecided("C38|" + ctor, at, "parameters not identified")
            continue
        e = Eng(P, STD)
        b = P.bodies[fn]
        args = {}
        for n, i in ps.items():
            args[i] = sym(n)
            e.typed(args[i], b["locals"][i + 1]["t"])
        for o in cx.run(fn, args=args):
            if o[0] != "ret" or is_err(o):
                continue
            v = o[2] if signed else okval(o)
            for g, n in GETTERS.items():
                if n not in ps:
                    continue
                for s, x in getter(cx, cx.need(TXT + g), v, o[1]):
                    a = args[ps[n]]
                    w = some(a) if g == "get_amount" else a
                    if g == "get_data":
                        i = s.variant(a)
                        for j in (0, 1) if i is None else (i,):
                            t = s.copy()
                            if t.assume_var(a, j):
                                w = some(mk("vf", a, 1, 0)) if j else adt(OPTION, 0)
                                cx.check(same_value(t, x, w) or t.variant(x) == 0 == j or t.variant(x) == 1 == j and
                                         same_value(t, x, a), "C38|%s|%s" % (ctor, n), at, "a transaction made with %s tells %s"
                                         % (show(w, 3), show(x, 3)), t, (x,))
                        continue
                    cx.check(same_value(s, x, w), "C38|%s|%s" % (ctor, n), at, "a transaction made with %s %s tells %s"
                             % (n, show(w, 3), show(x, 3)), s, (x,))
    for ctor in ("block::BasicInfo::new", "block::TransactionBlock::new"):
        if not cx.has(ctor):
            continue
        fn = ctor
        at = fn_where(P, fn)
        ps = signature(P, fn)
        if ps is None:
            cx.undecided("C38|" + ctor, at, "parameters not identified")
            continue
        args = {i: sym("given_" + n) for n, i in ps.items()}
        e = Eng(P, STD)
        for i, a in args.items():
            e.typed(a, P.bodies[fn]["locals"][i + 1]["t"])
        for o in cx.run(fn, args=args):
            if o[0] != "ret" or o[2].k != "adt":
                continue
            A = P.adts[o[2].a[0]]["variants"][0]["fields"]
            for f, x in zip(A, o[2].a[2]):
                if f["name"] in ps:
                    a = args[ps[f["name"]]]
                    cx.check(same_value(o[1], x, a), "C38|%s|%s" % (ctor, f["name"]), at, "%s is created with %s as its %s"
                             % (ctor.split("::")[1], show(x, 3), f["name"]), o[1], (x,))


def block_order(cx, P):
    from .r_misc import split
    impl = {}
    for p in P.bodies:
        if "dyn block::Block" in p and "{" not in p.split("::")[-1]:
            for t in ("Ord", "PartialOrd", "PartialEq"):
                if "std::cmp::%s>" % t in p or "std::cmp::%s for" % t in p:
                    impl[p.rsplit("::", 1)[1]] = p
    a, b = sym("self"), sym("other")
    info = lambda x: fld(mk("call", "block::Block::get_info", x), "timestamp")
    d = sub(info(a), info(b))
    cases = ((1, nn(sub(d, integer(1)))), (0, ieq(info(a), info(b))), (-1, nn(sub(scale(d, -1), integer(1)))))
    for m in ("cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge"):
        if m not in impl:
            continue
        fn = impl[m]
        at = fn_where(P, fn)
        for o in cx.run(fn, args={0: a, 1: b}, merge=False):
            if o[0] != "ret":
                continue
            for rel, f in cases:
                s = o[1].copy()
                if not (s.assume(f, True) and s.assume_var(mk("cmp", info(a), info(b)), rel + 1) and
                        s.assume_var(mk("cmp", info(b), info(a)), 1 - rel)):
                    continue
                if m in ("cmp", "partial_cmp"):
                    n_of = (lambda v: v) if m == "cmp" else (lambda v: v.a[2][0] if v.k == "adt" and v.a[1] == 1 else None)
                    for st, r, v in split([(o[0], s, o[2])], n_of):
                        if r is None:
                            if v.k == "adt" and v.a[1] == 0:
                                cx.violated("C38|order|%s" % m, at, "two blocks are not ordered", st)
                            else:
                                cx.undecided("C38|order|" + m, at, "result %s" % show(v, 4))
                            continue
                        cx.check(r == rel, "C38|order|%s" % m, at, "a block %s another is ordered %s" % (
                                 {1: "younger than", 0: "as old as", -1: "older than"}[rel], {1: "after", 0: "equal", -1: "before"}[r]), st)
                    continue
                truth = {"eq": rel == 0, "ne": rel != 0, "lt": rel < 0, "le": rel <= 0, "gt": rel > 0, "ge": rel >= 0}[m]
                t = s.copy()
                if o[2].k == "bool":
                    hit = o[2].a[0] is not truth
                else:
                    hit = t.assume(o[2], not truth)
                cx.check(not hit, "C38|order|%s" % m, at, "%s of blocks by timestamp answers %s" % (m, not truth), t, (o[2],))
