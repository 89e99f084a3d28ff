"""C39: operations whose conditions are met are not refused."""
from .base import *
from .r_ledger import LEDGERS, account, amt, old_balance, ledger_dbs, facts_terms, txcall, last_field
from .r_chain import CHAINS, CPRIMS, chain_roles
from .r_store import excused
from .r_block import own_fields, prev_terms, work_done
from .r_more import maintained, main_fields, chain_of
from .r_misc import p_copytree
from .r_num import walk_events
from .mcore import ret, W


def p_decoded(kind, orig):
    """bytes read back from a store are a block that was stored there; other bytes may not decode"""
    def f(eng, st, c):
        d = W(eng, st, c.args[0])
        if any(x.k in ("dbget", "dbprev") for x in subterms(d)):
            return ret(st, ok(mk(kind, d)))
        return orig(eng, st, c)
    return f


APRIMS = dict(CPRIMS)
for _p, _k in (("block::deserialize_main_chain_block", "blk"), ("block::DerivativeBlock::parse", "dblk")):
    APRIMS[_p] = p_decoded(_k, CPRIMS[_p])


def real_faults(o):
    """storage operations that failed on this path"""
    evs = o[1].events()
    return [e for i, e in enumerate(evs) if e[0] == "fault" and not excused(o[1], e, evs[i + 1:]) and not collides(o[1], e, evs[:i])]


def collides(st, e, before):
    """creating what must not be there yet fails although nothing is wrong, unless the path has established that it is absent"""
    new = e[1] == "fs.create_dir" or e[1] == "fs.open" and len(e[2]) > 1 and "create_new" in str(e[2][1].a)
    if not new:
        return False
    kind = mk("iokind", e[3])
    if kind in st.vars or any(kind in subterms(c) for c in facts_terms(st)):
        return False                    # the path distinguishes kinds of failures
    up = [e[2][0]]
    while up[-1].k == "path":
        up.append(up[-1].a[0])
    for p in up:
        if any(x[0] == "op" and x[1].startswith("fs.remove") and same(st, x[2][0], p) for x in before):
            return False
        if any(c.k == "fsexists" and v is False and same(st, c.a[0], p) for c, v in st.bools.items()):
            return False
    return True


def inner_failure(st):
    """a call the interpreter does not look into failed (its own refusals are judged where it is defined)"""
    for x, i in st.vars.items():
        if i == 1 and x.k == "call" and not str(x.a[0]).startswith(("block::Block::", "transaction::Transactionable::", "std::path::Path::")):
            return True
        if i == 1 and "@@" in str(x.a[0] if x.a else ""):
            return True
    return False


def wellformed(st, p, roles, mains):
    """assume what the library itself stored; False when the path contradicts it"""
    if not maintained(st, p, roles, mains):
        return False
    ts = set()
    for c in list(facts_terms(st)) + list(st.vars):
        ts.update(subterms(c))
    for x in ts:
        if x.k == "call" and x.a[0].split("::")[-1] in ("hash", "dump") and x.a[0].startswith(("block::Block::", "transaction::Transactionable::")) \
                and st.variant(x) == 1:
            return False                # C01, C02: serializing never fails (checked below)
        if x.k != "dbget" or st.variant(x) != 1:
            continue
        v = mk("vf", x, 1, 0)
        if last(x.a[0]) not in BLOCKLIKE:
            if not st.assume(le(integer(1), length(v)), True):
                return False
            for e0 in ts:
                if e0.k == "elem" and e0.a[0] is v and st.norm(e0.a[1]) is integer(0) and not st.assume(lt(e0, length(v)), True):
                    return False
    for x in ts:
        if x.k == "dbget" and st.variant(x) == 0 and x.a[1].k == "be":
            # the block below a height that a configuration or an index names is there
            h = x.a[1].a[1]
            src = {y.k for y in subterms(h)}
            if "filedata" in src or "dbget" in src:
                fd = [y for y in subterms(h) if y.k == "frombe"]
                if any(st.prove(add(y, integer(-1))) or st.truth(ieq(y, integer(0))) is False for y in fd):
                    return False
        if x.k == "frombe" and any(y.k == "dbget" for y in subterms(x)):
            # an index entry names a height below the chain's
            for y in ts:
                if y.k == "lkval" and is_int(y) and same_chain(x, y):
                    if not st.assume(lt(x, y), True):
                        return False
        if x.k == "eq" and index_hash(x) and st.truth(x) is not True:
            if not st.assume(x, True):
                return False
        if x.k == "dbget" and st.variant(x) == 0 and genesis_lookup(x):
            return False
    for x in ts:
        # a block stored under a height has that height
        if x.k == "fld" and x.a[1] == "height" and is_int(x):
            b = x.a[0]
            d = [y for y in subterms(b) if y.k == "dbget" and y.a[1].k == "be"]
            if len(d) == 1 and b.k in ("call", "fld", "dblk") and not st.assume(ieq(x, d[0].a[1].a[1]), True):
                return False
    return True


BLOCKLIKE = ("blocks", "transactions")


def last(v):
    return v.a[1] if v.k == "fld" else None


def same_chain(x, lk):
    d = [y for y in subterms(x) if y.k == "dbget"]
    return any(y.a[0].k == "fld" and lk.a[0].k == "fld" and y.a[0].a[0] is lk.a[0].a[0] for y in d)


def index_hash(c):
    """the hash of the block that the index of a hash leads to is that hash"""
    for h, k in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
        if h.k == "hash" and any(y.k == "dbget" and y.a[1].k == "be" and any(
                z.k == "dbget" and z.a[1] is k for z in subterms(y.a[1])) for y in subterms(h)):
            return True
    return False


def genesis_lookup(x):
    """looking up the hash of a stored block: the last one's, or that which a derivative chain names as its genesis"""
    return last(x.a[0]) == "height_reference" and x.a[1].k != "sym"


def opaque(st):
    """facts about the inside of stored values, or facts the interpreter does not understand"""
    for c in list(st.bools):
        for x in subterms(c):
            if x.k == "elem" and x.a[0].k == "vf" and x.a[0].a[0].k == "dbget" and last(x.a[0].a[0].a[0]) in BLOCKLIKE:
                return True
            if vague1(x):
                return True
    return False


def vague1(x):
    from .base import _vague1
    return _vague1(x)


def refused(cx, key, fn, success, text, args=None, setup=None, falses=False, limit=240, steps=3000000, shapes=False):
    roles = {ch: chain_roles(cx, ch) for ch in CHAINS}
    mains = main_fields(cx.P)
    at = fn_where(cx.P, cx.need(fn))
    n = 0
    prims = dict(APRIMS)
    if not fn.endswith("copy_dir_all"):
        prims["tools::copy_dir_all"] = p_copytree
    for o in cx.run(fn, args=args, setup=setup, prims=prims, merge=False, limit=limit, steps=steps, shapes=shapes):
        if is_ok(o) and not (falses and okval(o) is FALSE):
            if falses and okval(o) is not TRUE:
                s = o[1].copy()
                if not s.assume(okval(o), False):
                    continue
                o = ("ret", s, o[2])
            else:
                n += 1
                continue
        elif o[0] != "ret" or not (is_err(o) or is_ok(o)) or real_faults(o):
            continue
        st = o[1].copy()
        if inner_failure(st) or not wellformed(st, fn, roles, mains):
            continue
        if opaque(st):
            cx.undecided(key, at, text)
            continue
        if not success(st):
            continue
        cx.violated(key, at, text + explain(o[1]), st)
    cx.check(n > 0 or falses, key + "|never", at, "never succeeds")
    cx.ok(key, at, text)


def explain(st):
    fs = [("" if v else "not ") + show(c, 4) for c, v in list(st.bools.items())[-2:]]
    return (" (on a path with %s)" % "; ".join(fs))[:300] if fs else ""


def both(*fs):
    return lambda st: all(f(st) for f in fs)


def sure(st, *cs):
    return all(st.assume(c, True) for c in cs)


@rule("C39")
def c39(cx):
    """every path of the operations below that ends in an error without a failed storage operation must contradict the
    conditions under which the operation is possible (stated per operation), given what the library itself stores: credits
    that fit, debits that are covered, funds operations, opening, appending at the end, lookups, flushing, admission,
    production with sufficient work, validation of well-linked blocks, serialization, and integers that fit their length"""
    P = cx.P
    for part in (ledgers, funds, chains, tree, blocks, tools):
        try:
            part(cx, P)
        except Undecided:
            pass


def bal(st, db, k):
    """balance before, of an account the path may not have looked at"""
    b = old_balance(st, db, k)
    return b


def covered(db, k, a):
    def f(st):
        b = bal(st, db, k)
        return b is None or sure(st, le(a, b))
    return f


def fits(db, k, a):
    def f(st):
        b = bal(st, db, k)
        return b is None or sure(st, lt(add(b, a), integer(T.U256 + 1)))
    return f


def ledgers(cx, P):
    dbs = ledger_dbs(cx)
    for lg, m in LEDGERS.items():
        db = dbs[lg]
        for op, cond, text in (
                ("add", fits(db, account("owner"), amt()), "a credit that fits is refused"),
                ("sub", covered(db, account("owner"), amt()), "a debit that the balance covers is refused"),
                ("set", lambda st: True, "setting a balance is refused"),
                ("get", lambda st: True, "reading a balance is refused")):
            if op in m and cx.has(TREE + m[op]):
                refused(cx, "C39|" + m[op], TREE + m[op], cond, text, args={1: account("owner")} if op == "get" else
                        {1: account("owner"), 2: amt()})
        for alias in (False, True):
            a, b = account("from"), account("from" if alias else "to")
            cond = both(covered(db, a, amt()), fits(db, b, amt())) if not alias else covered(db, a, amt())
            refused(cx, "C39|%s%s" % (m["send"], "|self" if alias else ""), TREE + m["send"], cond,
                    "a transfer that the balance covers is refused", args={1: a, 2: b, 3: amt()},
                    setup=None if alias else lambda st, vals: st.assume(eq(a, b), False))


def funds(cx, P):
    S = "summary_db::SummaryDB::"
    a = account("owner")

    def present(st):
        return all(st.variant(x) != 0 for x in gets(st, a))

    def enough(st):
        return present(st) and all(sure(st, le(amt(), mk("lu", mk("vf", x, 1, 0)))) for x in gets(st, a) if known_lu(x))

    def room(st):
        return all(sure(st, lt(add(amt(), mk("lu", mk("vf", x, 1, 0))), integer(T.U256 + 1)))
                   for x in gets(st, a) if st.variant(x) == 1 and known_lu(x))
    refused(cx, "C39|SummaryDB::add_funds", S + "add_funds", room, "a credit that fits is refused", args={1: a, 2: amt()})
    refused(cx, "C39|SummaryDB::decrease_funds", S + "decrease_funds", enough, "a debit that the balance covers is refused",
            args={1: a, 2: amt()})
    refused(cx, "C39|SummaryDB::get_funds", S + "get_funds", present, "reading stored funds is refused", args={1: a})


def known_lu(x):
    return mk("lu", mk("vf", x, 1, 0)) in RANGE


def gets(st, k):
    out = set()
    for c in list(facts_terms(st)) + list(st.vars):
        out.update(y for y in subterms(c) if y.k == "dbget" and y.a[1] is k)
    return out


def yes(st):
    return True


def chains(cx, P):
    for ch, C in CHAINS.items():
        for m in ("new", "flush", "find_by_height", "find_by_hash", "find_raw_by_height", "find_raw_by_hash", "get_last_block",
                  "get_last_raw_block", "transaction_exists", "get_transaction_raw"):
            if cx.has(C + m):
                refused(cx, "C39|%s%s" % (C, m), C + m, yes, "%s%s fails although no storage operation failed and the stored "
                        "data is what the chain wrote" % (C, m))

        def at_end(st):
            hs = {x for c in facts_terms(st) for x in subterms(c) if x.k == "fld" and x.a[1] == "height" and is_int(x)}
            lk = {x for c in facts_terms(st) for x in subterms(c) if x.k == "lkval" and is_int(x) and last(x.a[0]) == "height"}
            return len(hs) == 1 == len(lk) and sure(st, ieq(next(iter(hs)), next(iter(lk)))) or not hs or not lk
        refused(cx, "C39|%sadd_block" % C, C + "add_block", at_end, "a block at the end of the chain is refused")
        for m in ("add_transaction", "add_transactions"):
            if cx.has(C + m):
                refused(cx, "C39|%s%s" % (C, m), C + m, yes, "recording a transaction is refused")


def tree(cx, P):
    for m in ("new", "flush", "get_derivative_chain"):
        refused(cx, "C39|" + m, TREE + m, yes, "%s fails although no storage operation failed and the stored data is what the "
                "library wrote" % m)

    def valid(st):
        for x, i in list(st.vars.items()):
            if x.k == "call" and x.a[0] == "block::Block::validate":
                if i != 0 or not st.assume(mk("vf", x, 0, 0), True):
                    return False
        hs = {x for c in facts_terms(st) for x in subterms(c) if x.k == "fld" and x.a[1] == "height" and is_int(x)
              and not any(y.k == "dbget" for y in subterms(x))}
        lk = {x for c in facts_terms(st) for x in subterms(c) if x.k == "lkval" and is_int(x)}
        return not (len(hs) == 1 == len(lk)) or sure(st, ieq(next(iter(hs)), next(iter(lk))))
    refused(cx, "C39|add_new_block", TREE + "add_new_block", valid, "a block that validates against the last one is refused")
    txs = sym("transactions")

    def work(st):
        for c in list(st.bools):
            for x in subterms(c):
                if x.k == "pow_ok" and not st.assume(x, True):
                    return False
        rems = {x for c in facts_terms(st) for x in subterms(c) if x.k == "rem"}
        for r in rems:
            t = st.truth(ieq(r, integer(0)))
            if t is True and not st.assume(ieq(length(txs), integer(0)), True):
                return False
            if t is False and not st.assume(le(integer(1), length(txs)), True):
                return False
        return True
    fn = cx.need(TREE + "emmit_new_main_block")
    ix = [i for i in range(1, P.bodies[fn]["argc"] + 1) if "[[u8; 32]]" in P.tstr(P.bodies[fn]["locals"][i]["t"])]
    if len(ix) == 1:
        refused(cx, "C39|emmit_new_main_block", fn, work, "a block with sufficient work is not produced", args={ix[0] - 1: txs})
    else:
        cx.undecided("C39|emmit_new_main_block", fn_where(P, fn), "no list of transactions")
    refused(cx, "C39|emmit_new_derivative_block", TREE + "emmit_new_derivative_block", work,
            "a derivative block with sufficient work is not produced")
    dbs = ledger_dbs(cx)
    tx = sym("transaction")
    snd, rcv = txcall("get_sender", tx), txcall("get_receiver", tx)
    size = txcall("get_dump_size", tx)

    def admitted(distinct):
        def f(st):
            v = txcall("verify", tx)
            if st.variant(v) == 1 or st.variant(v) == 0 and not st.assume(mk("vf", v, 0, 0), True):
                return False
            terms = {t for c in facts_terms(st) for t in subterms(c)}
            for x in list(terms) + list(st.vars):
                if x.k == "dbget" and last(x.a[0]) == "transactions" and st.variant(x) == 1:
                    return False
                if x.k == "dbhas" and st.truth(x) is True:
                    return False
            am = txcall("get_amount", tx)
            a = integer(0) if st.variant(am) == 0 else mk("vf", am, 1, 0)
            coins, gas = old_balance(st, dbs["coins"], snd), old_balance(st, dbs["gas"], snd)
            other = old_balance(st, dbs["coins"], rcv)
            for t in terms:
                if t.k == "mul" and size in subterms(t) and gas is not None and not sure(st, le(t, gas)):
                    return False
                if t.k == "fee" and not sure(st, le(add(t, a), coins if coins is not None else integer(T.U256))):
                    return False        # (without a balance read: any balance is a 256-bit number)
            if coins is not None and not sure(st, le(a, coins)):
                return False
            if distinct and other is not None and not sure(st, lt(add(other, a), integer(T.U256 + 1))):
                return False
            for t in terms:                 # sizes of data in memory
                if t is size and not st.assume(le(t, integer(LENMAX)), True):
                    return False
            return True
        return f
    for distinct in (True, False):
        refused(cx, "C39|send_transaction%s" % ("" if distinct else "|self"), TREE + "send_transaction", admitted(distinct),
                "a new, signed and funded transaction is refused", args={1: tx},
                setup=lambda st, vals: st.assume(eq(snd, rcv), not distinct))


def blocks(cx, P):
    for kind in KINDS:
        for m in ("dump", "hash"):
            refused(cx, "C39|%s::%s" % (kind, m), blk(kind, m), yes, "serializing a block is refused")
        s, p = sym("block"), sym("prev")

        def linked(st):
            f = own_fields(P, s)
            hs, t0, d0 = prev_terms(cx, st, p)
            if not all(st.assume(eq(f["previous_hash"], h), True) for h in hs[:1]):
                return False
            d = mk("nextdiff", st.norm(t0), st.norm(f["timestamp"]), d0)
            ALEN.setdefault(d, 32)
            if not st.assume(eq(f["difficulty"], d), True):
                return False
            if kind == "TransactionBlock":
                r = mk("mroot", f["transactions"])
                ALEN.setdefault(r, 32)
                if not st.assume(eq(f["merkle_tree_root"], r), True):
                    return False
            for c in list(st.bools):
                for x in subterms(c):
                    if x.k == "pow_ok" and not st.assume(x, True):
                        return False
            return True
        refused(cx, "C39|%s::validate" % kind, blk(kind, "validate"), linked, "a well-linked block with sufficient work is not accepted",
                args={0: s, 1: some(p)}, falses=True)
        refused(cx, "C39|%s::validate|first" % kind, blk(kind, "validate"), yes, "a block without a predecessor is not accepted",
                args={0: s, 1: NONE}, falses=True)
    refused(cx, "C39|Transaction::verify", TXT + "verify", yes, "a signature that the library accepts is refused", falses=True)
    for m in ("new", "generate_signature"):
        if cx.has(TXI + m):
            refused(cx, "C39|Transaction::" + m, TXI + m, yes, "signing with a valid key is refused")
    for m in ("dump", "hash"):
        if cx.has(TXT + m):
            fn = TXT + m
            if "Result" in P.tstr(P.bodies[fn]["locals"][0]["t"]):
                refused(cx, "C39|Transaction::" + m, fn, yes, "serializing a transaction is refused")


def tools(cx, P):
    refused(cx, "C39|dump_u256", "tools::dump_u256", yes, "serializing an integer is refused")

    def short_enough(st):
        for c in list(facts_terms(st)):
            for x in subterms(c):
                if x.k == "len" and x.a[0].k == "bigbytes" and not sure(st, le(x, integer(255))):
                    return False
        return True
    refused(cx, "C39|dump_biguint", "tools::dump_biguint", short_enough, "serializing an integer of up to 255 bytes is refused")
    for fn in ("tools::compress_to_file", "tools::decompress_from_file", "tools::copy_dir_all"):
        refused(cx, "C39|" + fn, fn, yes, "%s fails although no file operation failed" % fn)
    entry_kinds(cx, P)


def entry_kinds(cx, P):
    """copying a file as a directory fails, and so does the reverse: each is done only to an entry known to be of its kind"""
    fn = cx.need("tools::copy_dir_all")
    pr = dict(STD)
    pr[fn] = p_copytree
    n = 0
    for o in cx.run(fn, prims=pr):
        if o[0] != "ret":
            continue
        for e in walk_events(o[1].events()):
            if e[0] != "copies":
                continue
            n += 1
            isdir = e[1] == "fs.copytree"
            key = "C39|copy_dir_all|" + ("directory" if isdir else "file")
            text = "an entry that %s is copied as a %s" % ("is a file" if isdir else "is a directory", "directory" if isdir else "file")
            if e[2] is None and e[3]:
                cx.undecided(key, where(e), "kind of the entry not understood")
            else:
                cx.check(e[2] is isdir, key, where(e), text.replace(" is ", " may be ", 1) if e[2] is None else text, None)
    if not n:
        cx.undecided("C39|copy_dir_all|kind", fn_where(P, fn), "no entry is copied")
