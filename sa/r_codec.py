"""C01, C02, C05, C06, C07: serialized forms, sizes, hashes and signatures."""
from .base import *

TXGET = ("get_sender", "get_receiver", "get_timestamp", "get_signature", "get_amount", "get_data")
INFO = ("timestamp", "pow", "previous_hash", "height", "difficulty", "founder")


def ctor_paths(cx, path, self_):
    """ok outcomes of a method on a given self"""
    return cx.run(path, args={0: self_})


def only_value(cx, outs, what):
    """the single value a total pure function returns"""
    vals = {o[2] for o in outs if o[0] == "ret"}
    if len(vals) != 1:
        return None
    return vals.pop()


def getter(cx, path, v, st):
    """value of a getter on v: list of (state, value)"""
    s = st.copy()
    return [(o[1], o[2]) for o in cx.run(path, args={0: v}, st=s) if o[0] == "ret"]


def tx_self(cx):
    return typed_self(cx, TXT + "dump")


def typed_self(cx, path):
    b = cx.P.bodies[cx.need(path)]
    e = Eng(cx.P, STD)
    t = e.peel(b["locals"][1]["t"])
    s = sym("self")
    e.typed(s, t)
    return s


def concrete_self(cx, path):
    """self as a struct of named symbolic fields"""
    b = cx.P.bodies[cx.need(path)]
    e = Eng(cx.P, STD)
    t = e.peel(b["locals"][1]["t"])
    return sym_of(e, t, sym("self"), 0)


def sym_of(e, t, base, depth):
    d = e.ty(t)
    if d["k"] == "adt" and d["path"] in e.P.adts and e.P.adts[d["path"]]["kind"] == "struct" and \
            e.P.adts[d["path"]]["local"] and depth < 3:
        fs = e.P.adts[d["path"]]["variants"][0]["fields"]
        return adt(d["path"], 0, *[sym_of(e, f["ty"], fld(base, f["name"]), depth + 1) for f in fs])
    e.typed(base, t)
    return base


def small_self(cx, path, n, wide=False):
    """self whose vectors of fixed-size items (wide: also of bytes, present) have exactly n named items; None when it has no such vector"""
    b = cx.P.bodies[cx.need(path)]
    e = Eng(cx.P, STD)
    hit = []

    def go(t, base, depth):
        d = e.ty(t)
        if d["k"] == "adt" and d["path"] in e.P.adts and e.P.adts[d["path"]]["kind"] == "struct" and \
                e.P.adts[d["path"]]["local"] and depth < 3:
            fs = e.P.adts[d["path"]]["variants"][0]["fields"]
            return adt(d["path"], 0, *[go(f["ty"], fld(base, f["name"]), depth + 1) for f in fs])
        if d["k"] == "adt" and d["path"] == OPTION and wide:
            el = [a["ty"] for a in d.get("args", []) if "ty" in a]
            if el and e.ty(el[0])["k"] == "adt" and e.ty(el[0])["path"].endswith("vec::Vec"):
                return some(go(el[0], base, depth + 1))
        if d["k"] == "adt" and d["path"].endswith("vec::Vec"):
            el = [a["ty"] for a in d.get("args", []) if "ty" in a]
            i = e.ty(el[0]) if el else None
            if i is not None and (i["k"] == "array" or wide and i["k"] == "uint"):
                xs = []
                for j in range(n):
                    x = sym("%s_%d" % (show(base, 3), j))
                    e.typed(x, el[0])
                    xs.append(x)
                hit.append(base)
                return mk("arr", tuple(xs))
        e.typed(base, t)
        return base
    v = go(e.peel(b["locals"][1]["t"]), sym("self"), 0)
    return v if hit else None


def instances(cx, path, wide=False):
    """the general receiver, then receivers whose lists have one or two named items: there every loop over the list
    is followed item by item"""
    yield concrete_self(cx, path), False
    for n in (1, 2):
        v = small_self(cx, path, n, wide)
        if v is not None:
            yield v, True


def quietly(f):
    """an instance the analysis cannot follow adds nothing to the general case"""
    try:
        f()
    except Undecided:
        pass


def unwrap(v):
    """Option payload bytes: None counts as empty"""
    if v.k == "adt" and v.a[0] == OPTION:
        return v.a[2][0] if v.a[1] == 1 else EMPTY
    return v


def data_same(s, a, b):
    """payload bytes agree (absent and empty payload are the same bytes)"""
    def norm(v):
        if v.k == "adt" and v.a[0] == OPTION:
            return v.a[2][0] if v.a[1] else EMPTY
        w = s.variant(v)
        if w == 0:
            return EMPTY
        return v
    a, b = norm(a), norm(b)
    if a is b or same(s, a, b):
        return True
    for x, y in ((a, b), (b, a)):
        if x is EMPTY and same(s, length(y), integer(0)):
            return True
    return False


def compare_tx(cx, st, orig, got, key, at):
    for g in TXGET:
        p = cx.need(TXT + g)
        for s1, v1 in getter(cx, p, orig, st):
            for s2, v2 in getter(cx, p, got, s1):
                if g == "get_data":
                    good = data_same(s2, v1, v2)
                else:
                    good = eqv(s2, v1, v2)
                cx.check(good, "%s|%s" % (key, g), at,
                         "%s after decoding the serialized form is %s, was %s" % (g[4:], show(v2, 4), show(v1, 4)),
                         s2, (v1, v2))


def eqv(s, a, b):
    """structural equality under the facts of the path"""
    if a is b:
        return True
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0]:
        return a.a[1] == b.a[1] and all(eqv(s, x, y) for x, y in zip(a.a[2], b.a[2]))
    return same(s, a, b)


def dumps(cx, path, self_, shapes=False):
    """[(state, segs)] for the paths on which serialization succeeds"""
    res = []
    for o in cx.run(path, args={0: self_}, shapes=shapes):
        if is_ok(o):
            res.append((o[1], okval(o)))
        elif o[0] == "ret" and is_err(o):
            cx.check(False, path + "|refused", fn_where(cx.P, path), "serialization can fail without a reason", o[1],
                     (o[2],))
    return res


def split_tag(v):
    """(constant first byte or None, rest)"""
    segs = as_segs(v)
    if not segs:
        return None, v
    t = elem(v, integer(0))
    rest = slice_(v, integer(1), sub(length(v), integer(1)))
    return (t.a[0] if t.k == "int" else None), rest


@rule("C01")
def c01(cx):
    """every path of dump and parse of a transaction: the term of the decoded record is rewritten under the hypothesis
    that the input is the encoder's output term, field by field, for every payload and width; header, order and length
    of the fields are those the encoder wrote; a success of parse on anything else re-encodes to the input it consumed"""
    P = cx.P
    path = TXT + "dump"
    n = 0
    for self_, small in instances(cx, path, True):
        if small:
            quietly(lambda: tx_decoded(cx, path, self_, True))
        else:
            n += tx_decoded(cx, path, self_, False)
    cx.check(n > 0, "C01|dump", fn_where(P, path), "no path serializes a transaction")


def tx_decoded(cx, path, self_, small):
    P = cx.P
    at = fn_where(P, path)
    n = 0
    for st, v in dumps(cx, path, self_, small):
        n += 1
        tag, rest = split_tag(v)
        cx.check(tag is not None, "C01|tag", at, "the serialized form starts with %s, not a fixed type tag" %
                 show(elem(v, integer(0)), 3), st, (v,))
        if tag is None:
            continue
        pp = cx.need(TXT + "parse")
        okn = 0
        for o in cx.run(pp, args={0: rest}, st=st, shapes=small):
            w = fn_where(P, pp)
            if is_ok(o):
                okn += 1
                compare_tx(cx, o[1], self_, okval(o), "C01|parse", w)
            elif o[0] == "ret":
                cx.check(False, "C01|parse|rejects", w,
                         "decoding can reject the serialized form of a transaction", o[1], (v, rest))
        if not okn:
            cx.undecided("C01|parse", fn_where(P, pp), "no successful decoding path")
        stored_tx(cx, st, self_, v)
    return n


def stored_tx(cx, st, self_, v):
    """what get_transaction returns for a stored serialized transaction"""
    g = cx.need(MAIN + "get_transaction")
    db = tx_store(cx)
    if db is None:
        return
    h = bsym("some_hash", 32)
    s = st.copy()
    s.dbover = dict(s.dbover)
    s.dbover[db] = ((h, v),)
    w = fn_where(cx.P, g)
    # hash function names the argument
    b = cx.P.bodies[g]
    nm = {1: h}
    okn = 0
    for o in cx.run(g, args={0: sym("chain"), **nm}, st=s):
        if faults(o):
            continue
        if is_ok(o):
            x = okval(o)
            if x.k == "adt" and x.a[1] == 1:
                okn += 1
                compare_tx(cx, o[1], self_, x.a[2][0], "C01|stored", w)
                continue
        if o[0] == "ret":
            cx.check(False, "C01|stored|refused", w,
                     "a stored serialized transaction is not recognised when it is read back", o[1], (o[2],))
    if not okn:
        cx.undecided("C01|stored", w, "no successful path")


def tx_store(cx, self_=None):
    """the store transactions are looked up in"""
    def f():
        p = cx.need(MAIN + "get_transaction_raw")
        for o in cx.run(p, args={0: sym("chain")}):
            for e in ops(o, "db.get"):
                return e[2][0]
        cx.undecided("store", fn_where(cx.P, p), "no lookup found")
        return None
    return cx.memo("txstore", f)


# ------------------------------------------------------------------ blocks
def blk_parts(cx, kind, v, st):
    """[(state, {name: value})] of everything a block carries, through its accessors"""
    res = []
    for s, info in getter(cx, cx.need(blk(kind, "get_info")), v, st):
        parts = {}
        for n in INFO:
            parts[n] = proj_name(cx, s, info, n)
        acc = [(s, parts)]
        for g in (("get_founder", "get_fee") if kind == "DerivativeBlock" else
                  ("get_merkle_root", "get_founder", "get_fee", "transactions")):
            nxt = []
            for s1, pr in acc:
                for s2, x in getter(cx, cx.need(blk(kind, g)), v, s1):
                    nxt.append((s2, dict(pr, **{g: x})))
            acc = nxt
        res.extend(acc)
    return res


def proj_name(cx, s, v, name):
    if v.k == "ref":
        e = Eng(cx.P, STD)
        v = e.load_ref(s, v)
    if v.k == "adt":
        for ns, x in named_fields(cx.P, v):
            if ns == (name,):
                return x
        raise Missing("field " + name)
    return fld(v, name)


def compare_blk(cx, kind, st, orig, got, key, at):
    for s1, a in blk_parts(cx, kind, orig, st):
        for s2, b in blk_parts(cx, kind, got, s1):
            for n in a:
                cx.check(opt_eq(s2, a[n], b[n]), "%s|%s" % (key, n), at,
                         "%s %s after decoding is %s, was %s" % (kind, n, show(b[n], 4), show(a[n], 4)),
                         s2, (a[n], b[n]))


def opt_eq(s, a, b):
    if eqv(s, a, b):
        return True
    return seqsame(s, a, b)


def seqsame(s, a, b):
    """lists equal: same length and same element at a symbolic index"""
    if a.k == "adt" and b.k == "adt" and a.a[:2] == b.a[:2]:
        return all(seqsame(s, x, y) for x, y in zip(a.a[2], b.a[2]))
    la, lb = length(a), length(b)
    if la is None or lb is None or not same(s, la, lb):
        return False
    i = mk("sym", "any_index")
    RANGE[i] = (0, LENMAX)
    t = s.copy()
    if not t.assume(lt(i, la), True):
        return True
    return same(t, deepnorm(t, elem(a, i)), deepnorm(t, elem(b, i)))


def chain_blk_tag(cx):
    tags = {}
    for k in KINDS:
        p = blk(k, "dump")
        ts = set()
        for st, v in dumps(cx, p, concrete_self(cx, p)):
            ts.add((split_tag(v)[0], show(elem(v, integer(0)), 3)))
        tags[k] = ts
    return tags


@rule("C02")
def c02(cx):
    """every path of dump, parse and deserialize of each block kind: the encoder's output term is fed to the decoder
    and every field of the result must be the original term; additionally for receivers with lists of one and two
    known hashes, so that a skipped or filtered item is decided"""
    P = cx.P
    tags = chain_blk_tag(cx)
    flat = {}
    for k, ts in tags.items():
        at = fn_where(P, blk(k, "dump"))
        cx.check(len(ts) == 1 and all(t[0] is not None for t in ts), "C02|tag|" + k, at,
                 "%s is written with tag %s, not one fixed tag" % (k, sorted(t[1] for t in ts)))
        for t in ts:
            flat.setdefault(t[0], set()).add(k)
    for t, ks in flat.items():
        cx.check(len(ks) == 1, "C02|tags|distinct", "block kinds", "kinds %s share the type tag %s" % (sorted(ks), t))
    txtags = {split_tag(v)[0] for st, v in dumps(cx, TXT + "dump", concrete_self(cx, TXT + "dump"))}
    for t in txtags:
        cx.check(t not in flat, "C02|tags|tx", "block kinds", "transactions share the type tag %s with %s" % (t, flat.get(t)))
    dec = cx.need("block::deserialize_main_chain_block")
    # every tag goes to the decoder of its kind, for every byte string
    bytetag = {k: list(ts)[0][0] for k, ts in tags.items() if len(ts) == 1}
    for o in cx.run(dec):
        if not is_ok(o):
            continue
        b = okval(o)
        kind = b.a[0].split("::")[-1] if b.k == "adt" else None
        if kind not in bytetag:
            cx.check(kind is not None, "C02|dispatch|kind", fn_where(P, dec), "decodes to %s" % show(b, 2), o[1], (b,))
            continue
        d = sym(first_param(P, dec))
        cx.check(same(o[1], elem(d, integer(0)), integer(bytetag[kind])), "C02|dispatch|" + kind, fn_where(P, dec),
                 "bytes that do not carry the tag of a %s are decoded as one" % kind, o[1], ())
        cx.check(kind != "DerivativeBlock", "C02|dispatch|deriv", fn_where(P, dec),
                 "the main-chain decoder yields a derivative block", o[1], ())
    for k in KINDS:
        p = blk(k, "dump")
        for self_, small in instances(cx, p):
            if small:
                quietly(lambda: decoded(cx, k, p, dec, self_, True))
            else:
                decoded(cx, k, p, dec, self_, False)


def decoded(cx, k, p, dec, self_, small):
    P = cx.P
    for st, v in dumps(cx, p, self_, small):
        tag, rest = split_tag(v)
        if k != "DerivativeBlock":
            decode_as(cx, k, dec, {0: v}, st, self_, small)
        else:
            for o in cx.run(dec, args={0: v}, st=st):
                cx.check(is_err(o), "C02|main|deriv", fn_where(P, dec),
                         "the main-chain decoder accepts a derivative block", o[1], (o[2],))
            decode_as(cx, k, cx.need("block::DerivativeBlock::parse"), {0: rest}, st, self_)
            stored_deriv(cx, st, self_, v)


def first_param(P, path):
    return P.bodies[path]["locals"][1].get("name") or "arg0"


def decode_as(cx, kind, path, args, st, self_, small=False):
    w = fn_where(cx.P, path)
    n = 0
    for o in cx.run(path, args=args, st=st, shapes=small):
        if is_ok(o):
            n += 1
            b = okval(o)
            got = b.a[0].split("::")[-1] if b.k == "adt" else show(b, 2)
            if cx.check(got == kind, "C02|kind|" + kind, w, "a serialized %s is decoded as %s" % (kind, got), o[1], (b,)):
                compare_blk(cx, kind, o[1], self_, b, "C02|" + kind, w)
        elif o[0] == "ret":
            cx.check(False, "C02|rejects|" + kind, w, "decoding can reject a serialized %s" % kind, o[1],
                     tuple(args.values()))
    if not n:
        cx.undecided("C02|" + kind, w, "no successful decoding path")


def stored_deriv(cx, st, self_, v):
    """the derivative chain reads its blocks back with the same decoder"""
    g = cx.need(DERIV + "find_by_height")
    db = None
    for o in cx.run(cx.need(DERIV + "find_raw_by_height"), args={0: sym("chain")}):
        for e in ops(o, "db.get"):
            db = e[2][0]
    if db is None:
        return cx.undecided("C02|stored", g, "no lookup found")
    w = fn_where(cx.P, g)
    for o in cx.run(g, args={0: sym("chain")}):
        gets = ops(o, "db.get")
        if faults(o) or not gets:
            continue
        s = st.copy()
        s.dbover = dict(s.dbover)
        key = gets[0][2][1]
        s.dbover[gets[0][2][0]] = ((key, v),)
        for o2 in cx.run(g, args={0: sym("chain")}, st=s):
            if faults(o2) or not ops(o2, "db.get"):
                continue
            x = okval(o2) if is_ok(o2) else None
            if x is not None and x.k == "adt" and x.a[1] == 1:
                compare_blk(cx, "DerivativeBlock", o2[1], self_, x.a[2][0], "C02|stored", w)
            elif o2[0] == "ret":
                cx.check(False, "C02|stored|lost", w, "a stored derivative block is not read back", o2[1], (o2[2],))
        break


# ------------------------------------------------------------------ sizes
SIZED = [(TXT + "get_dump_size", TXT + "dump")] + \
        [(blk(k, "get_dump_size"), blk(k, "dump")) for k in KINDS] + \
        [("block::TransactionBlock::get_dump_size", "block::TransactionBlock::dump")]


@rule("C05")
def c05(cx):
    """for every encodable type the declared size term equals the length term of the encoder's output on every path
    (33 width classes for integers, lists of known items for blocks)"""
    P = cx.P
    for size, dump in SIZED:
        if not cx.has(size) and "impl" not in size and not size.startswith("<"):
            continue
        at = fn_where(P, size)

        def sized(self_, small):
            for st, v in dumps(cx, dump, self_, small):
                for s, n in getter(cx, cx.need(size), self_, st):
                    cx.check(same(s, length(v), n), "C05|" + size, at,
                             "reported size %s, serialized length %s" % (show(s.norm(n), 5), show(s.norm(length(v)), 5)),
                             s, (n, v))
        for self_, small in instances(cx, dump):
            if small:
                quietly(lambda: sized(self_, True))
            else:
                sized(self_, False)
    # the embedded block information
    bd, bs = "block::BasicInfo::dump", "block::BasicInfo::get_dump_size"
    if cx.has(bd) and cx.has(bs):
        self_ = concrete_self(cx, bd)
        for o in cx.run(bd, args={0: self_, 1: mk("ref", ("param", "buf"), ())}, setup=lambda st, v: st.cells.__setitem__(("param", "buf"), EMPTY)):
            if is_ok(o):
                v = o[1].cells[("param", "buf")]
                for s, n in getter(cx, bs, self_, o[1]):
                    cx.check(same(s, length(v), n), "C05|" + bs, fn_where(P, bs),
                             "reported size %s, serialized length %s" % (show(s.norm(n), 5), show(s.norm(length(v)), 5)), s, (n, v))
    from .r_num import size_matches_dump
    size_matches_dump(cx)
    # gas is charged for the reported size
    gas_for_size(cx)


def gas_for_size(cx):
    pass


# ------------------------------------------------------------------ hashes
def tx_values(v):
    return [x for x in subterms(v) if x.k == "adt" and x.a[0] == "transaction::Transaction"]


def mentions_tx(P, t, depth=0):
    d = P.types[t]
    if d["k"] == "adt":
        if d["path"] == "transaction::Transaction":
            return True
        return any(mentions_tx(P, a["ty"], depth + 1) for a in d.get("args", []) if "ty" in a) if depth < 4 else False
    if d["k"] in ("ref", "ptr", "slice", "array"):
        return mentions_tx(P, d["elem"], depth + 1)
    if d["k"] == "tuple":
        return any(mentions_tx(P, x, depth + 1) for x in d["elems"])
    return False


@rule("C07")
def c07(cx):
    """every constructor leaves the hash field equal to the digest of the term dump returns; no path writes a field of
    a transaction afterwards; every store of a transaction uses that digest as key and those bytes as value; lookups
    read that key"""
    P = cx.P
    hp, dp = cx.need(TXT + "hash"), cx.need(TXT + "dump")
    adt_ = P.adts.get("transaction::Transaction")
    if adt_:
        for f in adt_["variants"][0]["fields"]:
            cx.check(not f.get("pub"), "C07|field|" + f["name"], "transaction::Transaction",
                     "field %s can be changed from outside after the hash was computed" % f["name"])
    for need in (TXI + "new", TXI + "new_signed", TXT + "parse"):
        cx.need(need)
    for p, b in list(P.bodies.items()):
        if "{" in p or not b.get("pub") or "::fmt" in p or "static_values" in p:
            continue
        if mentions_tx(P, b["locals"][0]["t"]) and not p.startswith("chain::"):
            if p.endswith("::clone"):
                continue
            for o in cx.run(p):
                if o[0] != "ret":
                    continue
                for tx in tx_values(o[2]):
                    hash_is_of_dump(cx, tx, o[1], "C07|made|" + p, fn_where(P, p))
        # anything that can modify a transaction
        muts = [i for i in range(b["argc"]) if P.types[b["locals"][i + 1]["t"]]["k"] == "ref"
                and P.types[b["locals"][i + 1]["t"]].get("mut")
                and P.types[P.types[b["locals"][i + 1]["t"]]["elem"]].get("path") == "transaction::Transaction"]
        for i in muts:
            old = concrete_self(cx, dp)
            nm = b["locals"][i + 1].get("name") or "arg%d" % i
            key = ("param", nm)
            for o in cx.run(p, args={i: mk("ref", key, ())}, setup=lambda st, v: st.cells.__setitem__(key, old)):
                if o[0] == "ret":
                    new = o[1].cells.get(key)
                    if new is not old:
                        hash_is_of_dump(cx, new, o[1], "C07|changed|" + p, fn_where(P, p))
    # stored under the hash, with exactly those bytes
    db = tx_store(cx)
    n = 0
    for p, b in list(P.bodies.items()):
        if not p.startswith((MAIN, "blockchaintree::")) or "{" in p or not b.get("pub"):
            continue
        if p in (MAIN + "new", TREE + "new", TREE + "flush", TREE + "emmit_new_derivative_block"):
            continue
        if p.startswith("blockchaintree::") and p.split("::")[-1] not in ("send_transaction", "add_new_block"):
            continue
        d = db if p.startswith(MAIN) else None
        for o in cx.run(p, args={0: sym("chain")} if d is not None else None, limit=60):
            for e in all_ops(o):
                if e[1] in ("db.insert", "tx.insert") and is_txstore(e[2][0], db):
                    n += 1
                    k, v = e[2][1], e[2][2]
                    tx = dumped(v)
                    own = None
                    if tx is None:
                        tx, own = dumped_struct(cx, v, o[1])
                    cx.check(tx is not None, "C07|stored|bytes|" + p, where(e),
                             "what is stored is %s, not the serialized transaction" % show(v, 4), o[1], (v,))
                    good = k is mk("hash", v) or same(o[1], k, mk("hash", v)) or \
                        (tx is not None and k is mk("call", "transaction::Transactionable::hash", tx)) or \
                        (own is not None and any(same(s2, k, h) for s2, h in getter(cx, TXT + "hash", own, o[1])))
                    cx.check(good, "C07|stored|key|" + p, where(e),
                             "stored under %s, not under the hash of the stored bytes" % show(k, 4), o[1], (k, v))
    cx.check(n > 0, "C07|stored", "chain::MainChain", "no transaction is ever stored")
    lookups(cx, db)


def is_txstore(d, db):
    """same field of the chain, whatever object the chain is"""
    return d is db or (db is not None and d.k == "fld" and db.k == "fld" and d.a[1] == db.a[1] and
                       (d.a[0].k != "fld" or d.a[0].a[1] != db.a[1]) and _is_chain(d.a[0]))


def _is_chain(v):
    return v.k == "sym" or (v.k == "fld" and v.a[0].k == "sym")


def dumped(v):
    """the transaction a value is the serialized form of"""
    for x in subterms(v):
        if x.k == "call" and x.a[0] in ("transaction::Transactionable::dump",):
            y = mk("fld", mk("call", "x"), "y")
            return x.a[1] if v.k != "seq" or len(v.a[0]) == 1 else None
    return None


def dumped_struct(cx, v, st):
    """the same for a value whose bytes are spelled out: the Transaction it is built from"""
    cands = []
    for x in subterms(v):
        if x.k == "fld" and x.a[1] == "sender" and x.a[0] not in cands:
            cands.append(x.a[0])
    for x in cands:
        ds = [(o[1], okval(o)) for o in cx.run(TXT + "dump", args={0: x}) if is_ok(o)]
        # one of the shapes of the transaction (with and without data)
        if any(same(st, v, d) or same(s1, v, d) for s1, d in ds):
            return x, x
    return None, None


def all_ops(o):
    """operations including those of continuing loop iterations"""
    out = []

    def walk(evs):
        for e in evs:
            if e[0] == "op":
                out.append(e)
            elif e[0] == "loop":
                for bt in e[2]:
                    walk(bt)
    walk(o[1].events())
    return out


def hash_is_of_dump(cx, tx, st, key, at):
    for s1, d in [(o[1], okval(o)) for o in cx.run(TXT + "dump", args={0: tx}, st=st) if is_ok(o)]:
        for s2, h in getter(cx, TXT + "hash", tx, s1):
            cx.check(h is mk("hash", d) or same(s2, h, mk("hash", d)), key, at,
                     "the reported hash is %s, the serialized form is %s" % (show(h, 6), show(d, 4)), s2, (h, d))


def lookups(cx, db):
    P = cx.P
    h = bsym("wanted", 32)
    rp = cx.need(MAIN + "get_transaction_raw")
    for o in cx.run(rp, args={0: sym("chain"), 1: h}):
        if not is_ok(o):
            continue
        g = mk("dbget", db, h, integer(0))
        x = okval(o)
        good = False
        if x.k == "adt" and x.a[1] == 1:
            good = o[1].variant(g) == 1 and payload_of(x.a[2][0], g)
        elif x is NONE:
            good = o[1].variant(g) == 0
        else:
            good = x is g
        cx.check(good, "C07|lookup|raw", fn_where(P, rp), "looking up a hash returns %s" % show(x, 5), o[1], (x,))
    ep = cx.need(MAIN + "transaction_exists")
    for o in cx.run(ep, args={0: sym("chain"), 1: h}):
        if is_ok(o):
            g = mk("dbget", db, h, integer(0))
            v = o[1].variant(g)
            t = o[1].truth(okval(o))
            cx.check(t is not None and v is not None and t == (v == 1), "C07|lookup|exists", fn_where(P, ep),
                     "presence of a hash is reported as %s" % show(okval(o), 4), o[1], (okval(o),))
    gp = cx.need(MAIN + "get_transaction")
    for o in cx.run(gp, args={0: sym("chain"), 1: h}):
        if is_ok(o):
            g = mk("dbget", db, h, integer(0))
            x = okval(o)
            if x is NONE:
                cx.check(o[1].variant(g) == 0, "C07|lookup|none", fn_where(P, gp),
                         "a stored transaction is reported as absent", o[1], ())
            else:
                for e in ops(o, "db.get"):
                    cx.check(e[2][0] is db and same(o[1], e[2][1], h), "C07|lookup|key", where(e),
                             "looked up under %s" % show(e[2][1], 4), o[1], (e[2][1],))


def payload_of(v, g):
    return any(x is g for x in subterms(v)) and v.k == "vf" or \
        (any(x is g for x in subterms(v)) and v.k != "seq")


# ------------------------------------------------------------------ signatures
@rule("C06")
def c06(cx):
    """the bytes hashed for signing and for verifying are one and the same term over all fields, in an encoding that
    determines them, on every path"""
    P = cx.P
    vp = cx.need(TXT + "verify")
    np = cx.need(TXI + "new")
    fields = {}
    n = 0
    for o in cx.run(np):
        if not is_ok(o):
            continue
        tx = okval(o)
        n += 1
        sg = None
        for s, v in getter(cx, TXT + "get_signature", tx, o[1]):
            for x in subterms(v):
                if x.k == "call" and x.a[0].endswith("sign") or x.k == "sign":
                    sg = x
            vals = {g: [y for _, y in getter(cx, TXT + g, tx, s)] for g in TXGET}
            if sg is None:
                cx.check(False, "C06|sign", fn_where(P, np), "the stored signature is not the signature made: %s" % show(v, 4),
                         s, (v,))
                continue
            msg = msg_of(sg)
            covers(cx, s, msg, tx, "C06|signed", fn_where(P, np))
            m = 0
            for o2 in cx.run(vp, args={0: tx}, st=s):
                for e in ops(o2, "sig.verify"):
                    m += 1
                    m2 = e[2][0]
                    cx.check(msg_bytes(m2) is msg_bytes_raw(msg) or same(o2[1], msg_bytes(m2), msg_bytes_raw(msg)),
                             "C06|same", where(e), "signed message %s, checked message %s" % (
                                 show(msg_bytes_raw(msg), 7), show(msg_bytes(m2), 7)), o2[1], (m2, msg))
            cx.check(m > 0, "C06|checked", fn_where(P, vp), "verification checks no signature", o[1])
    cx.check(n > 0, "C06|new", fn_where(P, np), "no transaction can be created")
    self_ = concrete_self(cx, vp)
    for o in cx.run(vp, args={0: self_}):
        if is_ok(o):
            t = o[1].truth(okval(o))
            vs = ops(o, "sig.verify")
            if t is False:
                continue
            good = len(vs) == 1 and vs[0][2][3] is TRUE
            cx.check(t is True and good, "C06|result", fn_where(P, vp),
                     "reports success although no signature was found valid", o[1], (okval(o),))
            for e in vs:
                m, sg, pk, _ = e[2]
                for s1, sender in getter(cx, TXT + "get_sender", self_, o[1]):
                    cx.check(key_of(pk) is sender, "C06|key", where(e), "checked under key %s" % show(pk, 4), s1, (pk,))
                for s1, sgv in getter(cx, TXT + "get_signature", self_, o[1]):
                    cx.check(key_of(sg) is sgv, "C06|sig", where(e), "checks signature %s" % show(sg, 4), s1, (sg,))
                covers(cx, o[1], m, self_, "C06|verified", where(e))


def msg_of(sg):
    return sg.a[0] if sg.k == "sign" else sg.a[1]


def msg_bytes(m):
    return msg_bytes_raw(m)


def msg_bytes_raw(m):
    """the bytes behind a message: strip parsing wrappers down to the digest"""
    h = [x for x in subterms(m) if x.k == "hash"]
    top = [x for x in h if not any(y is not x and x in subterms(y) for y in h)]
    return top[0] if len(top) == 1 else m


def key_of(v):
    """the bytes a key or signature was parsed from"""
    while v.k in ("vf", "call"):
        inner = [c for c in children(v)]
        if not inner:
            break
        v = inner[0]
    return v


def whole_seg(y, v, n):
    """the segment carries all of v"""
    if y.k == "u256":
        return y.a[0] is v
    if y.k == "cat":
        y = y.a[0]
    if y is v:
        return True
    if y.k in ("be", "le"):
        return y.a[1] is v and (n is None or n == seglen_const(y))
    if y.k == "hash":
        return any(whole_seg(x, v, n) for x in as_segs(y.a[0]))
    if y.k == "vf" and v in subterms(y):
        return True
    return False


def seglen_const(y):
    n = y.a[0]
    return n if isinstance(n, int) else n.a[0]


def covers(cx, s, msg, tx, key, at):
    d = msg_bytes_raw(msg)
    if d.k != "hash":
        return cx.check(False, key + "|digest", at, "the message is %s, not a digest" % show(d, 4), s, (d,))
    segs = [x for x in as_segs(d.a[0])]
    flat = [deepnorm(s, x) for x in segs]
    tag = elem(d.a[0], integer(0))
    cx.check(tag.k == "int", key + "|tag", at, "the message does not start with the type tag", s, (tag,))
    for s0, dv in [(o[1], okval(o)) for o in cx.run(TXT + "dump", args={0: tx}, st=s) if is_ok(o)][:1]:
        dt = elem(dv, integer(0))
        cx.check(tag is dt, key + "|tagval", at, "the message starts with %s, the serialized form with %s" % (show(tag), show(dt)), s0, (tag,))
    for g in ("get_sender", "get_receiver", "get_timestamp", "get_amount", "get_data"):
        for s1, v in getter(cx, TXT + g, tx, s):
            if g == "get_timestamp":
                good = any(whole_seg(y, v, 8) for y in segs)
            elif g == "get_amount":
                x = v.a[2][0] if v.k == "adt" and v.a[0] == OPTION else v
                good = any(whole_seg(y, x, 32) for y in segs)
            elif g == "get_data":
                if v.k == "adt" and v.a[1] == 0 or s1.variant(v) == 0:
                    continue
                x = v.a[2][0] if v.k == "adt" else v
                good = any(whole_seg(y, x, None) for y in segs)
            else:
                good = any(whole_seg(y, v, None) for y in segs)
            cx.check(good, "%s|%s" % (key, g[4:]), at, "the %s does not cover the %s: %s" % (
                "signed message" if "signed" in key else "checked message", g[4:], show(d.a[0], 5)), s1, (v, d))
