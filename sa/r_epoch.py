"""C21: the epoch rollover."""
from .base import *
from .r_ledger import ledger_dbs, resolve_ref, facts_terms, writes_name
from .r_chain import tree_roles
from .r_block import BPRIMS, own_fields, need_prims, req
from .r_misc import p_copytree
from .r_num import static_int
from . import models as M

EMIT = TREE + "emmit_new_main_block"


def static_u256(cx, name):
    s = cx.P.statics.get(name)
    if s is None or not s.get("bytes"):
        raise Missing(name)
    return int.from_bytes(bytes(s["bytes"]), "little")


def store_paths(cx):
    """where a new tree opens each of its stores: {field: path below the root}"""
    def go():
        out = {}
        for o in cx.run(cx.need(TREE + "new")):
            if is_ok(o):
                for n, x in named_fields(cx.P, okval(o)):
                    if len(n) == 1 and x.k == "db":
                        out[n[0]] = below_root(x.a[0])
        if not out:
            cx.undecided("stores", TREE + "new", "stores of a new tree not identified")
            raise Undecided("stores")
        return out
    return cx.memo("store_paths", go)


def below_root(p):
    """constant components of a path, outermost first; None when it does not start at one root"""
    parts = []
    while p.k == "path":
        c = p.a[1]
        if not (c.k in ("str", "bytes") and c.a and isinstance(c.a[0], (bytes, tuple))):
            return None
        b = c.a[0]
        parts.append(b if isinstance(b, bytes) else bytes(b))
        p = p.a[0]
    return tuple(x.strip(b"/") for x in reversed(parts))


@rule("C21")
def c21(cx):
    """every successful path of producing a main-chain block: which kind of block is produced follows from its height; for a
    summarize block, the leaves of its merkle root, the order of summary, snapshot and refill, and the directories copied;
    for a transaction block, that no ledger changes"""
    P = cx.P
    need_prims(cx, "merkletree::MerkleTree::build_tree")
    fn = cx.need(EMIT)
    at = fn_where(P, fn)
    N = static_u256(cx, "static_values::BLOCKS_PER_EPOCH")
    dbs = ledger_dbs(cx)
    pr = dict(BPRIMS)
    pr["tools::copy_dir_all"] = p_copytree
    txs = sym("transactions")
    kinds = set()
    from .r_block import params
    ps = params(cx, fn)
    args = {ps["transactions"]: txs} if ps and "transactions" in ps else {}
    for o in cx.run(fn, args=args, prims=pr):
        if not is_ok(o):
            continue
        v = okval(o)
        if v.k != "adt" or not v.a[0].startswith("block::"):
            cx.undecided("C21", at, "the produced block is %s" % show(v, 4))
            continue
        kind = v.a[0].split("::")[-1]
        kinds.add(kind)
        f = own_fields(P, v)
        st = o[1]
        height_kind(cx, at, st, f["height"], N, kind)
        if kind == "SummarizeBlock":
            req(cx, st.truth(ieq(length(txs), integer(0))) is True, "C21|summarize|transactions", at,
                "a summarize block is produced from a list of transactions", st)
            summary(cx, at, o, f, dbs)
            rollover(cx, at, o, dbs)
        elif kind == "TransactionBlock":
            req(cx, st.prove(sub(length(txs), integer(1))) or st.truth(ieq(length(txs), integer(0))) is False,
                "C21|transaction|transactions", at, "a transaction block without transactions is produced", st)
            for e in o[1].events():
                if e[0] == "op" and writes_name(e[1]) and e[2] and e[2][0] in dbs.values():
                    cx.check(False, "C21|transaction|ledger", where(e), "producing a transaction block changes a balance", st)
            cx.ok("C21|transaction|ledger", at, "no ledger changes")
        else:
            cx.check(False, "C21|kind", at, "a %s is produced on the main chain" % kind, st)
    cx.check("SummarizeBlock" in kinds, "C21|never summarize", at, "no summarize block is ever produced")
    cx.check("TransactionBlock" in kinds, "C21|never transaction", at, "no transaction block is ever produced")


def height_kind(cx, at, st, h, N, kind):
    want = kind == "SummarizeBlock"
    key = "C21|" + ("summarize|height" if want else "transaction|height")
    text = "a summarize block is produced at a height that is not a multiple of the epoch length" if want else \
        "a transaction block is produced at a height that is a multiple of the epoch length"
    n = integer(N)
    for c in facts_terms(st):
        for x in subterms(c):
            if x.k == "rem" and x.a[1] is n and same(st, x.a[0], h):
                z = ieq(x, integer(0))
                t = st.truth(z)
                if t is None and st.prove(sub(x, integer(1))):
                    t = False
                if t is want:
                    cx.ok(key, at, kind)
                    return
    s = st.copy()
    if not s.assume(ieq(T.rem(h, n), integer(0)), not want):
        cx.ok(key, at, kind)
        return
    req(cx, False, key, at, text, s)


def summary(cx, at, o, f, dbs):
    """the root of one leaf per account of the coin ledger"""
    st = o[1]
    r = f.get("merkle_tree_root")
    if r is None or r.k != "mroot":
        cx.check(False, "C21|summary|root", at, "the summarize block's merkle root is %s" % (show(r, 4) if r is not None else "missing"),
                 st, (r,) if r is not None else ())
        return
    evs = o[1].events()
    X = r.a[0]
    segs = as_segs(X)
    reps = [s for s in segs if s.k in ("repalt", "rep")]
    if len(segs) != 1 or len(reps) != 1:
        cx.check(False, "C21|summary|leaves", at, "the summary is computed from %s" % show(X, 5), st, (X,))
        return
    k, bv = reps[0].a[0], reps[0].a[1]
    alts = reps[0].a[2] if reps[0].k == "repalt" else (reps[0].a[2],)
    ends = [e for e in evs if e[0] == "op" and e[1] == "iter.end" and e[2][1] is k]
    its = {x for s in segs for x in subterms(s) if x.k == "dbiter"}
    if len(its) != 1:
        cx.check(False, "C21|summary|leaves", at, "the summary iterates over %d stores" % len(its), st, (X,))
        return
    it = its.pop()
    cx.check(it.a[0] is dbs["coins"], "C21|summary|ledger", at, "the summary iterates over %s" % show(it.a[0], 3), st, (it,))
    if not any(e[2][0] is it for e in ends):
        if st.unk:
            cx.undecided("C21|summary|all", at, "iteration not understood")
        else:
            cx.check(False, "C21|summary|all", at, "the summary may leave out the last accounts", None)
    addr, amount = mk("dbikey", it, bv), mk("dbival", it, bv)
    gas = mk("vf", mk("dbget", dbs["gas"], addr, integer(0)), 1, 0)
    withgas = 0
    for alt in alts:
        if not alt:
            cx.check(False, "C21|summary|skipped", at, "the summary leaves out some accounts", None)
            continue
        hsh = [x for s in alt for x in subterms(s) if x.k == "hash"]
        if len(hsh) != 1:
            cx.undecided("C21|summary|leaf", at, "leaf %s" % "; ".join(show(s, 5) for s in alt))
            continue
        got = [s.a[0] for s in as_segs(hsh[0].a[0]) if s.k == "cat"]
        for what, x in (("address", addr), ("coin balance", amount)):
            cx.check(x in got, "C21|summary|" + what, at, "a leaf of the summary does not contain the account's %s: %s"
                     % (what, show(hsh[0], 6)), st, (hsh[0],))
        withgas += gas in got
        cx.check(gas in got or not any(x is gas for g in got for x in subterms(g)), "C21|summary|whole gas balance", at,
                 "a leaf of the summary does not contain the account's whole gas balance: %s" % show(hsh[0], 6), st, (hsh[0],))
    cx.check(withgas > 0, "C21|summary|gas balance", at, "the leaves of the summary do not contain the gas balances", st, (X,))
    # before anything of the rollover happens
    i0 = min([i for i, e in enumerate(evs) if e[0] == "op" and e[1] == "iter.end" and e[2][0] is it] or [len(evs)])
    for i, e in enumerate(evs[:i0]):
        if e[0] == "op" and writes_name(e[1]) and e[2] and e[2][0] in dbs.values():
            cx.check(False, "C21|summary|before", where(e), "balances are changed before they are summarised", st)


def rollover(cx, at, o, dbs):
    st = o[1]
    evs = o[1].events()
    paths = store_paths(cx)
    copies = {}
    for i, e in enumerate(evs):
        if e[0] == "op" and e[1] == "fs.copytree":
            copies[below_root(e[2][0])] = (i, below_root(e[2][1]), e)
    refill = [i for i, e in enumerate(evs) if e[0] == "op" and writes_name(e[1]) and e[2] and e[2][0] in dbs.values()]
    final = final_stores(cx, st)
    olds = []
    for lg in ("coins", "gas"):
        n = dbs[lg].a[1]
        p = paths.get(n)
        if p is None:
            cx.undecided("C21|rollover|" + lg, at, "place of the %s ledger not known" % lg)
            continue
        c = copies.get(p)
        if c is None:
            if any(x is None for x in copies):
                cx.undecided("C21|rollover|%s|copy" % lg, at, "copied directories not identified")
            else:
                cx.check(False, "C21|rollover|%s|copy" % lg, at, "the %s ledger is not copied by the rollover" % lg, None)
            continue
        i, dst, e = c
        old = [f for f, q in paths.items() if q == dst and f != n]
        cx.check(len(old) == 1 and is_snapshot_of(paths, dst, p, dbs), "C21|rollover|%s|destination" % lg, where(e),
                 "the %s ledger is copied to %s" % (lg, dst), st, (e[2][1],))
        olds.append(dst)
        flushed = [j for j, x in enumerate(evs[:i]) if x[0] == "op" and x[1] == "db.flush" and x[2][0] is dbs[lg]]
        cx.check(bool(flushed), "C21|rollover|%s|flush" % lg, where(e), "the %s ledger is copied without being flushed first" % lg, st)
        if flushed:
            w = [x for x in evs[flushed[-1]:i] if x[0] == "op" and writes_name(x[1]) and x[2] and x[2][0] is dbs[lg]]
            for x in w:
                cx.check(False, "C21|rollover|%s|flush" % lg, where(x), "the %s ledger changes between flush and copy" % lg, st)
        rm = [j for j, x in enumerate(evs[:i]) if x[0] == "op" and x[1] == "fs.remove_dir_all" and below_root(x[2][0]) == dst]
        cx.check(bool(rm), "C21|rollover|%s|emptied" % lg, where(e), "the old snapshot of %s is not removed before the new one is written" % lg, st)
        if old:
            h = final.get(old[0])
            if h is None:
                cx.undecided("C21|rollover|%s|opened" % lg, at, "snapshot store after the rollover not known")
            else:
                op = [j for j, x in enumerate(evs) if x[0] == "op" and x[1] == "db.open" and x[3] is h]
                cx.check(h.k == "db" and below_root(h.a[0]) == dst and bool(op) and op[-1] > i, "C21|rollover|%s|opened" % lg, at,
                         "after the rollover the snapshot of %s is %s" % (lg, show(h, 4)), st, (h,))
        if lg == "coins" or True:
            early = [j for j in refill if j < i and evs[j][2][0] is dbs[lg]]
            for j in early[:1]:
                cx.check(False, "C21|rollover|%s|order" % lg, where(evs[j]), "the %s ledger is changed before it is copied" % lg, st)
    cx.check(len(set(olds)) == len(olds), "C21|rollover|separate", at, "both ledgers are copied to one place", st)
    if not refill:
        cx.check(False, "C21|rollover|refill", at, "the root account is not refilled", st)
        return
    for j in refill:
        e = evs[j]
        if e[2][0] is not dbs["coins"]:
            cx.check(False, "C21|rollover|refill store", where(e), "the rollover changes the gas ledger", st)
            continue
        root = cx.P.statics.get("static_values::ROOT_PUBLIC_ADDRESS")
        if root is not None and root.get("bytes"):
            k = e[2][1]
            cx.check(same(st, k, mk("bytes", tuple(root["bytes"]))), "C21|rollover|refill account", where(e),
                     "the rollover changes the balance of %s" % show(k, 4), st, (k,))


def is_snapshot_of(paths, dst, p, dbs):
    """dst is the other store named after p, if there is one such, or else no live ledger"""
    named = [q for q in paths.values() if q != p and q[:-1] == p[:-1] and q[-1].startswith(p[-1])]
    if len(named) == 1:
        return dst == named[0]
    return dst not in [paths.get(d.a[1]) for d in dbs.values()]


def final_stores(cx, st):
    """fields of the tree after the operation, as far as they were assigned"""
    v = st.cells.get(("param", "self"))
    out = {}
    if v is not None and v.k == "adt":
        for n, x in named_fields(cx.P, v):
            if len(n) == 1:
                out[n[0]] = x
    return out
