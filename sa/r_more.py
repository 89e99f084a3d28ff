"""C34, C35 and C36: the fee, handles to chains, and operations that must not crash."""
from .base import *
from .r_ledger import facts_terms
from .r_chain import CPRIMS, CHAINS, chain_roles
from .r_num import difficulty_classes
from .r_codec import quietly

FEE = "tools::recalculate_fee"


# ------------------------------------------------------------------ C34
@rule("C34")
def c34(cx):
    """every path of the fee computation, with the summary of count_leading_zeros that C18 checks against its body: the
    result is the fee step times the leading zero bits; no path overflows or panics, for the 257 classes of difficulties;
    and every produced transaction block carries the fee of its own difficulty"""
    P = cx.P
    fn = cx.need(FEE)
    at = fn_where(P, fn)
    d = bsym("difficulty", 32)
    step = mk("static", "static_values::FEE_STEP")
    lo, hi = RANGE.get(step, (0, T.U256))
    cx.check(lo > 0, "C34|step", "static_values::FEE_STEP", "the fee step can be 0")
    for o in cx.run(fn, args={0: d}, panics=True, prims=prims("recalculate_fee")):
        if o[0] == "panic":
            cx.violated("C34|panic|" + o[2][0], "%s (%s)" % (o[2][2], o[2][1]), "computing the fee: %s" % o[2][0], o[1])
            continue
        st = o[1]
        want = mul(step, T.clz(d))
        if same(st, o[2], want) or hi == lo and same(st, o[2], scale(T.clz(d), lo)):
            cx.ok("C34|fee", at, "step times leading zero bits")
            continue
        fee_classes(cx, fn, at, lo)
        break
    produced_fee(cx)


def produced_fee(cx):
    """the fee of every transaction block a producing path returns, against the fee of the difficulty it carries"""
    from .r_block import BPRIMS, params, own_fields
    P = cx.P
    fn = TREE + "emmit_new_main_block"
    if not cx.has(fn) or FEE not in STD:
        return
    at = fn_where(P, fn)
    ps = params(cx, fn)
    if ps is None or "transactions" not in ps:
        cx.undecided("C34|produced", at, "parameters not recognised")
        return
    try:
        outs = cx.run(fn, args={ps["transactions"]: sym("transactions")}, prims=BPRIMS)
    except Undecided:
        return
    for o in outs:
        if not is_ok(o):
            continue
        v = okval(o)
        if v.k != "adt" or not v.a[0].endswith("::TransactionBlock"):
            continue
        st = o[1]
        f = own_fields(P, v)
        d = deepnorm(st, f["difficulty"])
        want = fee_term(cx, st, f["difficulty"])
        cx.check(any(same(st, f["fee"], w) for w in want), "C34|produced", at, "a produced block with difficulty %s has the fee %s"
                 % (show(d, 3), show(f["fee"], 4)), st, (f["fee"],))


def fee_term(cx, st, d):
    """the fee of a difficulty, as the fee computation returns it"""
    out = []
    for o in cx.run(FEE, args={0: d}, st=st, prims=prims("recalculate_fee")):
        if o[0] == "ret":
            out.append(o[2])
    out.append(mul(mk("static", "static_values::FEE_STEP"), T.clz(d)))
    x = mk("fee", d)
    out.append(x)
    return out


def prims(*skip):
    return {k: v for k, v in STD.items() if k.split("::")[-1] not in skip}


def fee_classes(cx, fn, at, step):
    """the fee of every class of difficulties"""
    last = None
    for z, bs in difficulty_classes():
        for o in cx.run(fn, args={0: mk("arr", bs)}, panics=True, shapes=True, prims=prims("recalculate_fee", "count_leading_zeros")):
            if o[0] == "panic":
                cx.violated("C34|panic|" + o[2][0], at, "computing the fee for %d leading zero bits: %s" % (z, o[2][0]), o[1])
                continue
            v = o[1].norm(o[2])
            lo, hi = lin_range(v)
            if lo is None or lo != hi:
                cx.undecided("C34|fee", at, "fee for %d leading zero bits: %s" % (z, show(v, 4)))
                return
            cx.check(lo == step * z, "C34|fee", at, "the fee for %d leading zero bits is %s, not %d steps of %d"
                     % (z, lo, z, step), o[1], (v,))


# ------------------------------------------------------------------ C35
@rule("C35")
def c35(cx):
    """every function that returns a chain from an existing one (clone, the accessors of the tree): on each path the
    returned chain has the very locks and stores of the original, so that a block appended through one handle is seen
    through all"""
    P = cx.P
    for ch, C in CHAINS.items():
        path = C[:-2]
        a = P.adts.get(path)
        if a is None:
            raise Missing(path)
        names = [f["name"] for f in a["variants"][0]["fields"]]
        shared = {r.a[1] for r in chain_roles(cx, ch).values() if r.k == "fld"}
        n = 0
        for p, b in list(P.bodies.items()):
            if "{" in p or not (p.endswith("::clone") or b.get("pub") and p.startswith(TREE)) or not takes(P, b, path) or not gives(P, b["locals"][0]["t"], path):
                continue
            n += 1
            for o in cx.run(p, prims=CPRIMS):
                if o[0] != "ret":
                    continue
                for v in [x for x in subterms(o[2]) if x.k == "adt" and x.a[0] == path]:
                    for nm, x in zip(names, v.a[2]):
                        if nm in shared:
                            src = x.k == "fld" and x.a[1] == nm
                            cx.check(src, "C35|%s|%s" % (p, nm), fn_where(P, p),
                                     "the returned handle has a %s of its own: %s" % (nm, show(x, 4)), o[1], (x,))
        cx.check(n > 0 or ch == "derivative", "C35|%s|none" % ch, path, "no way to get a second handle")


def takes(P, b, path):
    def has(t, d=0):
        k = P.types[t]
        if k["k"] == "ref":
            return has(k["elem"], d)
        if k["k"] == "adt":
            if k["path"] == path:
                return True
            x = P.adts.get(k["path"])
            return d < 1 and bool(x) and x["kind"] == "struct" and x.get("local") and \
                any(has(f["ty"], d + 1) for f in x["variants"][0]["fields"])
        return False
    return b["argc"] == 1 and has(b["locals"][1]["t"])


def gives(P, t, path):
    k = P.types[t]
    return k["k"] == "adt" and k["path"] == path


# ------------------------------------------------------------------ C36
SKIP = ("overflow:Mul", "overflow:Add")


@rule("C36")
def c36(cx):
    """every public operation of tree, chains, blocks, transactions, pool and legacy store, for all arguments and contents:
    no path ends in a panic whose facts agree with what the library itself maintains (the main chain is never empty, a block
    is stored below every height of a chain, references are 32 bytes, heights do not reach 2^256)"""
    P = cx.P
    roles = {}
    for ch in CHAINS:
        roles[ch] = chain_roles(cx, ch)
    mains = main_fields(P)
    n = 0
    for p, b in sorted(P.bodies.items()):
        if not b.get("pub") or "{" in p or "::fmt" in p:
            continue
        q = p.lstrip("<")
        if not q.startswith(("chain::", "blockchaintree::", "transaction::", "block::", "txpool::", "summary_db::")):
            continue
        n += 1
        quietly(lambda: crashes(cx, p, roles, mains))
    cx.check(n > 0, "C36|none", "src", "no public operation found")


def main_fields(P):
    a = P.adts.get("blockchaintree::BlockChainTree")
    if a is None:
        raise Missing("blockchaintree::BlockChainTree")
    return {f["name"] for f in a["variants"][0]["fields"] if P.types[f["ty"]].get("path") == "chain::MainChain"}


def crashes(cx, p, roles, mains):
    seen = 0
    for o in cx.run(p, prims=CPRIMS, panics=True):
        if o[0] != "panic":
            continue
        kind, fn, site = o[2][0], o[2][1], o[2][2]
        if kind in SKIP or faults(o):                # sizes of data in memory; faults are C25
            continue
        st = o[1].copy()
        if not maintained(st, p, roles, mains):
            continue
        seen += 1
        cx.violated("C36|%s|%s|%s" % (p, fn, kind), "%s (%s)" % (site, fn), "%s can crash: %s" % (p, kind), st)
    if not seen:
        cx.ok("C36|" + p, fn_where(cx.P, p), "does not crash")


def last(v):
    return v.a[1] if v.k == "fld" else None


def chain_of(x, p, roles, mains):
    """the kind of chain a lock or store of a path belongs to"""
    if x.k != "fld":
        return None
    base = x.a[0]
    if base.k == "sym":
        for ch, C in CHAINS.items():
            if p.startswith(C) or p.startswith("<" + C[:-2]):
                return ch
        return None
    if base.k == "fld" and base.a[1] in mains:
        return "main"
    return "derivative"


def maintained(st, p, roles, mains):
    """assume what the library maintains; False when the path contradicts it"""
    ts = set()
    for c in list(facts_terms(st)) + list(st.vars):
        for x in subterms(c):
            ts.add(x)
    lks = {}
    for x, b in st.bools.items():
        if x.k == "setin" and not b and x.a[0].k == "fld" and x.a[1].k == "call" and x.a[1].a[0].endswith("::hash") and \
                any(y.k == "heapmax" and y.a[0].k == "fld" and y.a[0].a[0] is x.a[0].a[0] for y in x.a[1].a[1:] if isinstance(y, V)):
            return False                    # the pool knows the hash of each transaction it holds: C26
    for x in ts:
        if x.k == "lkval" and last(x.a[0]) in {last(r["height"]) for r in roles.values()}:
            ch = chain_of(x.a[0], p, roles, mains)
            if ch is None or not is_int(x):
                continue
            lks[x.a[0].a[0]] = x
            if not st.assume(lt(x, integer(T.U256)), True):
                return False
            if ch == "main" and not st.assume(le(integer(1), x), True):
                return False
    for x in ts:
        if (x.k == "fld" and x.a[1] == "height" or x.k == "frombe" and "filedata" in {y.k for y in subterms(x)}) and RANGE.get(x, (0, 0))[1] == T.U256:
            if not st.assume(lt(x, integer(T.U256)), True):
                return False
        if x.k == "call" and x.a[0] in ("block::Block::hash", "block::Block::dump") and st.variant(x) == 1:
            return False                    # serializing a block never fails: C02, C05
        if x.k != "dbget":
            continue
        if x.a[1].k == "be" and st.variant(x) == 1 and not st.assume(le(integer(1), length(mk("vf", x, 1, 0))), True):
            return False
        db, key = x.a[0], x.a[1]
        ch = chain_of(db, p, roles, mains)
        if ch is None:
            continue
        R = roles[ch]
        i = st.variant(x)
        if last(db) == last(R["blocks"]) and i == 0:
            h = key.a[1] if key.k == "be" else None
            lk = lks.get(db.a[0])
            if h is not None and lk is not None and st.prove(add(sub(lk, h), integer(-1))):
                return False
        if i == 1 and last(db) == last(R["refs"]):
            if not st.assume(ieq(length(mk("vf", x, 1, 0)), integer(32)), True):
                return False
    return True
