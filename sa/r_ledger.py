"""C08 to C13 and C30: balances, transactions admission and the legacy funds store."""
from .base import *
from . import models as M
from .mcore import ret, W

LEDGERS = {
    "coins": {"add": "add_amount", "sub": "sub_amount", "send": "send_amount", "get": "get_amount", "set": "set_amount"},
    "gas": {"add": "add_gas", "sub": "sub_gas", "send": "send_gas", "get": "get_gas"},
}


def stored_payload(d):
    return d.k == "vf" and d.a[0].k in ("dbget", "dbprev", "dbget?")


def p_load_wellformed(eng, st, c):
    """as the summary of load_u256; a value read back from a store is one that was written there"""
    d = W(eng, st, c.args[0])
    if not stored_payload(d):
        return STD["tools::load_u256"](eng, st, c)
    v, k = mk("lu", d), mk("lun", d)
    RANGE.setdefault(v, (0, T.U256))
    if not st.assume(lt(k, st.norm(length(d))), True):
        return []
    return ret(st, ok(mk("tup", v, k)))


LPRIMS = dict(STD)
LPRIMS["tools::load_u256"] = p_load_wellformed


def amt():
    return u256sym("amount")


def account(n):
    v = sym(n)
    RANGE[mk("len", v)] = (0, LENMAX)
    return v


# ------------------------------------------------------------------ what a path did to a store
class Effects:
    """writes of a path that took effect, in order, and reads, with the transaction they happened in"""

    def __init__(self, o):
        self.writes = []        # (db, key, value|None, tx index|None, event)
        self.reads = []         # (db, key, value, tx index|None, event)
        self.other = []         # effects this view does not understand
        self.o = o
        txs = {}                # db -> [index, buffer]
        n = 0
        casnext = False
        for e in o[1].events():
            if e[0] == "tx":
                db = e[2]
                if e[1] == "begin":
                    txs[db] = [n, []]
                    n += 1
                elif db in txs:
                    i, buf = txs.pop(db)
                    if e[1] == "commit":
                        self.writes.extend(buf)
                continue
            if e[0] == "loop":
                for bt in e[2]:
                    for x in bt:
                        if x[0] == "op" and x[1].split(".")[0] in ("db", "tx") and writes_name(x[1]):
                            self.other.append(x)
                continue
            if e[0] == "atomic" and self.writes:
                w = self.writes[-1]
                self.writes[-1] = (w[0], w[1], w[2], ("cas", n), w[4])
                n += 1
                continue
            if e[0] != "op":
                continue
            name, a = e[1], e[2]
            if name in ("db.get", "tx.get", "db.contains"):
                i = txs[a[0]][0] if name[:2] == "tx" and a[0] in txs else None
                self.reads.append((a[0], a[1], e[3], i, e))
            elif name in ("tx.insert", "tx.remove"):
                w = (a[0], a[1], a[2] if name == "tx.insert" else None, txs[a[0]][0] if a[0] in txs else None, e)
                (txs[a[0]][1] if a[0] in txs else self.writes).append(w)
            elif name in ("db.insert", "db.remove"):
                self.writes.append((a[0], a[1], a[2] if name == "db.insert" else None, None, e))
            elif writes_name(name):
                self.other.append(e)

    def final(self, db, key):
        """value last written for the key; ('old',) when it was not touched; None when not decided"""
        st = self.o[1]
        for d, k, v, i, e in reversed(self.writes):
            if d is not db:
                continue
            if same(st, k, key):
                return v if v is not None else "removed"
            if not differ(st, k, key):
                return None
        return "old"


def writes_name(n):
    return n.split(".")[-1] in ("insert", "remove", "clear", "batch", "update", "cas", "pop_max", "pop_min", "merge", "apply")


def decode(v):
    """number a stored value stands for"""
    sg = as_segs(v)
    if len(sg) == 1 and sg[0].k == "u256":
        return sg[0].a[0]
    if stored_payload(v):
        return mk("lu", v)
    return None


def old_balance(st, db, key):
    """balance before the operation; None when the path never looked"""
    g = mk("dbget", db, key, integer(0))
    i = st.variant(g)
    if i == 0:
        return integer(0)
    p = mk("vf", g, 1, 0)
    x = mk("lu", p)
    RANGE.setdefault(x, (0, T.U256))
    return x if i == 1 else None


def new_balance(fx, db, key):
    """(known, balance) after the operation"""
    f = fx.final(db, key)
    if f is None:
        return False, None
    if isinstance(f, str):
        return True, (integer(0) if f == "removed" else old_balance(fx.o[1], db, key))
    return True, decode(f)


# ------------------------------------------------------------------ the operations
def ledger_dbs(cx):
    """the store each ledger reads its balances from"""
    def go():
        out = {}
        for name, m in LEDGERS.items():
            dbs = set()
            for o in cx.run(TREE + m["get"], prims=LPRIMS):
                for e in ops(o, "db.get", "tx.get"):
                    dbs.add(e[2][0])
            if len(dbs) > 1:                  # which of them do the updates write?
                wr = set()
                for op in ("add", "sub", "set"):
                    if op in m and cx.has(TREE + m[op]):
                        for o in op_run(cx, name, op):
                            if o[0] == "ret":
                                wr |= {d for d, k, v, i, e in Effects(o).writes}
                dbs = dbs & wr if len(wr) == 1 and dbs & wr else dbs
            if len(dbs) != 1:
                cx.undecided("ledger|" + name, TREE + m["get"], "reads %d stores" % len(dbs))
                raise Undecided("ledger")
            out[name] = dbs.pop()
        return out
    return cx.memo("ledger_dbs", go)


def op_run(cx, ledger, op, alias=False):
    """outcomes of a ledger operation on symbolic accounts"""
    def go():
        fn = TREE + LEDGERS[ledger][op]
        cx.need(fn)
        if op == "send":
            a, b = account("from"), account("from" if alias else "to")
            args = {1: a, 2: b, 3: amt()}

            def setup(st, vals):
                if not alias:
                    st.assume(eq(a, b), False)
        else:
            a = account("owner")
            args, setup = {1: a, 2: amt()}, None
        return cx.run(fn, args=args, setup=setup, prims=LPRIMS, panics=True)
    return cx.memo(("op", ledger, op, alias), go)


def want_changes(op, alias):
    """account -> sign of the change"""
    if op == "add":
        return {"owner": 1}
    if op == "sub":
        return {"owner": -1}
    if op == "send":
        return {"from": 0} if alias else {"from": -1, "to": 1}
    return {}


def expect_delta(cx, key, at, fx, db, acct, sign, text):
    """the balance of acct changes by sign * amount"""
    st = fx.o[1]
    old = old_balance(st, db, acct)
    known, new = new_balance(fx, db, acct)
    if not known:
        cx.undecided(key, at, text + ": which account was written is not decided")
        return
    if sign == 0:
        f = fx.final(db, acct)
        if isinstance(f, str) and f == "old":
            cx.ok(key, at, text)
            return
    if old is None:
        f = fx.final(db, acct)
        if isinstance(f, str):
            cx.check(sign == 0 or same(st, amt(), integer(0)), key, at, text + ": the balance is not updated", st)
        else:
            cx.check(False, key, at, text + ": the new balance does not depend on the old one", st, (f,))
        return
    if new is None:
        f = fx.final(db, acct)
        cx.check(False, key, at, text + ": the balance is stored as %s" % (f if isinstance(f, str) else show(f, 4)), st,
                 () if isinstance(f, str) else (f,))
        return
    want = add(old, scale(amt(), sign))
    cx.check(same(st, new, want), key, at, "%s: the balance becomes %s instead of %s" % (text, show(new, 4), show(want, 4)),
             st, (new,))


def only_accounts(cx, key, at, fx, db, accts, text):
    st = fx.o[1]
    for d, k, v, i, e in fx.writes:
        if any(d is db and same(st, k, a) for a in accts):
            cx.ok(key, where(e), text)
        elif d is db and not all(differ(st, k, a) for a in accts):
            cx.check(False, key, where(e), "%s: writes the balance of %s" % (text, show(k, 3)), st,
                     (k,) + ((mk("unk", "x", 0),) if not all(differ(st, k, a) or k.k != "sym" for a in accts) else ()))
        else:
            cx.check(False, key, where(e), "%s: writes %s in %s" % (text, show(k, 3), show(d, 3)), st, (k, d))
    for e in fx.other:
        cx.undecided(key, where(e), "%s: effect %s" % (text, e[1]))


def unchanged(cx, key, at, fx, text):
    """no committed write changes a value"""
    st = fx.o[1]
    for d, k, v, i, e in fx.writes:
        known, new = new_balance(fx, d, k)
        old = old_balance(st, d, k)
        if known and old is not None and new is not None and same(st, new, old):
            continue
        cx.check(False, key, where(e), "%s, but %s is written for %s" % (text, show(v, 4) if v is not None else "nothing", show(k, 3)),
                 st, (k,) + ((v,) if v is not None else ()))
        return
    for e in fx.other:
        cx.undecided(key, where(e), "%s: effect %s" % (text, e[1]))
    cx.ok(key, at, text)


@rule("C10")
def c10(cx):
    """on every path of both transfer operations, for two different accounts and for one account twice, the writes that are
    committed change the sender by -amount and the receiver by +amount and nothing else, or nothing at all on error"""
    dbs = ledger_dbs(cx)
    for lg in LEDGERS:
        fn = TREE + LEDGERS[lg]["send"]
        at = fn_where(cx.P, fn)
        for alias in (False, True):
            n = 0
            for o in op_run(cx, lg, "send", alias):
                if o[0] == "panic":
                    continue            # C11
                fx = Effects(o)
                tag = "C10|%s|%s" % (LEDGERS[lg]["send"], "self" if alias else "pair")
                if is_ok(o):
                    n += 1
                    for a, s in want_changes("send", alias).items():
                        expect_delta(cx, tag + "|" + (a if not alias else "account"), at, fx, dbs[lg], account(a), s,
                                     "transferring %s%s" % (lg, " to oneself" if alias else ", " + a))
                    only_accounts(cx, tag + "|others", at, fx, dbs[lg], [account(a) for a in want_changes("send", alias)],
                                  "transferring " + lg)
                elif is_err(o):
                    unchanged(cx, tag + "|error", at, fx, "the transfer reports an error")
                else:
                    cx.undecided(tag, at, "result %s" % show(o[2], 3))
            cx.check(n > 0, "C10|%s|never" % LEDGERS[lg]["send"], at, "never succeeds")


@rule("C11")
def c11(cx):
    """on every path of every balance operation: a success implies that the facts of the path bound the debit by the stored
    balance and that the committed value is exactly old -/+ amount; an error leaves nothing committed; no path panics"""
    dbs = ledger_dbs(cx)
    for lg in LEDGERS:
        for op in ("add", "sub", "send", "set"):
            if op not in LEDGERS[lg]:
                continue
            fn = TREE + LEDGERS[lg][op]
            at = fn_where(cx.P, fn)
            nm = LEDGERS[lg][op]
            for alias in ((False, True) if op == "send" else (False,)):
                for o in op_run(cx, lg, op, alias):
                    if o[0] == "panic":
                        cx.violated("C11|%s|panic|%s" % (nm, o[2][0]), "%s (%s)" % (o[2][2], o[2][1]),
                                    "%s crashes: %s" % (nm, o[2][0]), o[1])
                        continue
                    fx = Effects(o)
                    st = o[1]
                    if is_err(o):
                        unchanged(cx, "C11|%s|error" % nm, at, fx, "%s reports an error" % nm)
                        continue
                    if not is_ok(o):
                        cx.undecided("C11|" + nm, at, "result %s" % show(o[2], 3))
                        continue
                    if op == "set":
                        known, new = new_balance(fx, dbs[lg], account("owner"))
                        cx.check(known and new is not None and same(st, new, amt()), "C11|%s|value" % nm, at,
                                 "the balance is set to %s" % (show(new, 4) if new is not None else new), st,
                                 (new,) if new is not None else ())
                        continue
                    for a, s in want_changes(op, alias).items():
                        expect_delta(cx, "C11|%s|%s%s" % (nm, a, "|self" if alias else ""), at, fx, dbs[lg], account(a), s, nm)
                        if s < 0:
                            old = old_balance(st, dbs[lg], account(a))
                            covered = old is not None and st.prove(sub(old, amt())) or same(st, amt(), integer(0))
                            cx.check(covered, "C11|%s|covered" % nm, at,
                                     "%s succeeds although nothing on the path bounds the amount by the balance" % nm, st)


@rule("C12")
def c12(cx):
    """every committed write of a balance operation belongs to one storage transaction, and every balance its value depends
    on was read inside that transaction"""
    dbs = ledger_dbs(cx)
    for lg in LEDGERS:
        for op in ("add", "sub", "send", "set"):
            if op not in LEDGERS[lg]:
                continue
            nm = LEDGERS[lg][op]
            for o in op_run(cx, lg, op):
                if o[0] == "ret":
                    atomic(cx, "C12|" + nm, fn_where(cx.P, TREE + nm), Effects(o), nm)
    for m in ("add_funds", "decrease_funds"):
        fn = "summary_db::SummaryDB::" + m
        if not cx.has(fn):
            continue
        for o in funds_run(cx, m):
            if o[0] == "ret":
                atomic(cx, "C12|SummaryDB::" + m, fn_where(cx.P, fn), Effects(o), "SummaryDB::" + m)


def atomic(cx, key, at, fx, nm):
    st = fx.o[1]
    txs = {i for d, k, v, i, e in fx.writes}
    good = True
    if len(fx.writes) > 1 and (None in txs or len(txs) > 1):
        good = False
        cx.check(False, key + "|split", where(fx.writes[-1][4]), "%s writes its balances in %d separate steps" % (nm, max(2, len(txs))), st)
    for d, k, v, i, e in fx.writes:
        if v is None:
            continue
        for t in subterms(v):
            if t.k != "dbget":
                continue
            inside = [r for r in fx.reads if r[0] is t.a[0] and same(st, r[1], t.a[1]) and r[3] is not None and r[3] == i]
            if isinstance(i, tuple):
                continue                       # compare-and-swap, retried by its caller
            if not inside:
                good = False
                cx.check(False, key, where(e), "%s writes a balance computed from one it read outside the storage transaction" % nm, st)
    for e in fx.other:
        cx.undecided(key, where(e), "effect %s" % e[1])
    if good:
        cx.ok(key, at, nm)


@rule("C13")
def c13(cx):
    """coin operations and coin reads use one store and gas operations another, opened at different places; keys are the
    account itself and values the integer encoding that the read decodes; an absent balance reads as zero"""
    P = cx.P
    dbs = ledger_dbs(cx)
    cx.check(dbs["coins"] is not dbs["gas"], "C13|stores", fn_where(P, TREE + "get_amount"),
             "coins and gas are read from the same store " + show(dbs["coins"], 3))
    for lg in LEDGERS:
        g = TREE + LEDGERS[lg]["get"]
        at = fn_where(P, g)
        ow = account("owner")
        ALEN[ow] = 33
        for o in cx.run(g, args={1: ow}, prims=LPRIMS, panics=True):
            if o[0] == "panic":
                cx.violated("C13|%s|panic|%s" % (g, o[2][0]), "%s (%s)" % (o[2][2], o[2][1]), "%s crashes: %s" % (g, o[2][0]), o[1])
                continue
            fx = Effects(o)
            for d, k, v, i, e in fx.writes:
                cx.check(False, "C13|%s|writes" % g, where(e), "reading a balance writes", o[1])
            if not is_ok(o):
                cx.check(bool(faults(o)), "C13|%s|error" % g, at, "reading a balance fails without a storage error", o[1], (o[2],))
                continue
            for d, k, v, i, e in fx.reads:
                cx.check(same(o[1], k, ow), "C13|%s|key" % g, where(e), "balance looked up under %s" % show(k, 4), o[1], (k,))
            old = old_balance(o[1], dbs[lg], ow)
            cx.check(old is not None and same(o[1], okval(o), old), "C13|%s|value" % g, at,
                     "the balance is reported as %s" % show(okval(o), 4), o[1], (okval(o),))
        for op in ("add", "sub", "send", "set"):
            if op not in LEDGERS[lg]:
                continue
            nm = LEDGERS[lg][op]
            accts = [account("from"), account("to")] if op == "send" else [account("owner")]
            for o in op_run(cx, lg, op):
                if o[0] != "ret":
                    continue
                fx = Effects(o)
                for d, k, v, i, e in fx.writes + fx.reads:
                    cx.check(d is dbs[lg], "C13|%s|store" % nm, where(e), "%s uses %s" % (nm, show(d, 3)), o[1], (d,))
                    cx.check(any(same(o[1], k, a) for a in accts), "C13|%s|key" % nm, where(e),
                             "%s uses the key %s" % (nm, show(k, 4)), o[1], (k,))
                for d, k, v, i, e in fx.writes:
                    cx.check(v is not None and decode(v) is not None, "C13|%s|encoding" % nm, where(e),
                             "%s stores %s, which reading does not decode" % (nm, show(v, 4) if v is not None else "nothing"),
                             o[1], (v,) if v is not None else ())
    # where the stores live
    for o in cx.run(TREE + "new", prims=LPRIMS):
        if not is_ok(o):
            continue
        v = okval(o)
        paths = {}
        for lg in LEDGERS:
            x = resolve_ref(P, v, dbs[lg])
            paths[lg] = x
        if None in paths.values():
            cx.undecided("C13|new", fn_where(P, TREE + "new"), "stores of a new tree not identified")
            continue
        cx.check(paths["coins"] is not paths["gas"], "C13|new", fn_where(P, TREE + "new"),
                 "coins and gas are kept in the same place: %s" % show(paths["coins"], 4), o[1], tuple(paths.values()))


def resolve_ref(P, root, ref):
    """the value that a field path such as self.summary_db has in a constructed struct"""
    names = []
    v = ref
    while v.k == "fld":
        names.append(v.a[1])
        v = v.a[0]
    for n, x in named_fields(P, root):
        if list(n) == list(reversed(names)):
            return x
    return None


# ------------------------------------------------------------------ legacy funds store
def funds_run(cx, m):
    def go():
        ow = account("owner33")
        ALEN[ow] = 33
        return cx.run(cx.need("summary_db::SummaryDB::" + m), args={1: ow, 2: amt()}, prims=LPRIMS, panics=True)
    return cx.memo(("funds", m), go)


@rule("C30")
def c30(cx):
    """every success path of the funds store commits exactly old +/- funds under the address and then flushes that store;
    the facts of a successful decrease bound it by the balance; error paths without a storage fault write nothing; no path
    panics for any 33 address bytes"""
    P = cx.P
    ow = account("owner33")
    for m, sign in (("add_funds", 1), ("decrease_funds", -1)):
        fn = "summary_db::SummaryDB::" + m
        at = fn_where(P, cx.need(fn))
        n = 0
        for o in funds_run(cx, m):
            k = "C30|" + m
            if o[0] == "panic":
                cx.violated(k + "|panic|" + o[2][0], "%s (%s)" % (o[2][2], o[2][1]), "%s crashes: %s" % (m, o[2][0]), o[1])
                continue
            fx = Effects(o)
            st = o[1]
            if is_err(o):
                if not faults(o):
                    unchanged(cx, k + "|error", at, fx, m + " refuses")
                continue
            if not is_ok(o):
                cx.undecided(k, at, "result %s" % show(o[2], 3))
                continue
            n += 1
            dbs = {d for d, _, _, _, _ in fx.writes + fx.reads}
            if not dbs:
                cx.check(same(st, amt(), integer(0)), k + "|nothing", at, m + " succeeds without touching the store", st)
                continue
            if len(dbs) > 1:
                cx.check(False, k + "|store", at, m + " uses several stores", st)
                continue
            db = dbs.pop()
            expect_delta(cx, k + "|value", at, fx, db, ow, sign, m)
            only_accounts(cx, k + "|others", at, fx, db, [ow], m)
            if sign < 0:
                old = old_balance(st, db, ow)
                cx.check(old is not None and st.prove(sub(old, amt())) or same(st, amt(), integer(0)), k + "|covered", at,
                         m + " succeeds although nothing on the path bounds the amount by the balance", st)
            if fx.writes:
                evs = o[1].events()
                last = max(i for i, e in enumerate(evs) if e[0] == "op" and writes_name(e[1]))
                cx.check(any(e[0] == "op" and e[1] == "db.flush" and e[2][0] is db for e in evs[last:]), k + "|persist", at,
                         m + " reports success before the change is flushed", st)
        cx.check(n > 0, "C30|%s|never" % m, at, "never succeeds")
    # reading decodes what was written
    fn = "summary_db::SummaryDB::get_funds"
    funds_flush(cx)
    if not cx.has(fn):
        return
    for o in cx.run(fn, args={1: ow}, prims=LPRIMS, panics=True):
        if o[0] == "panic":
            cx.violated("C30|get_funds|panic|" + o[2][0], "%s (%s)" % (o[2][2], o[2][1]), "get_funds crashes: %s" % o[2][0], o[1])
        elif is_ok(o):
            st = o[1]
            for d, k, v, i, e in Effects(o).reads:
                cx.check(same(st, k, ow), "C30|get_funds|key", where(e), "looks up %s" % show(k, 3), st, (k,))
                p = mk("vf", v, 1, 0)
                want = [integer(0)] if st.variant(v) == 0 else [mk("lu", p), M.mnum.frombe(slice_(p, integer(1), elem(p, integer(0))), 32)]
                cx.check(any(same(st, okval(o), w) for w in want), "C30|get_funds|value", fn_where(P, fn),
                         "reports %s" % show(okval(o), 4), st, (okval(o),))


def funds_flush(cx):
    """every successful path of flush flushes the store the funds are in"""
    fn = "summary_db::SummaryDB::flush"
    if not cx.has(fn):
        return
    at = fn_where(cx.P, fn)
    n = 0
    for o in cx.run(fn, prims=LPRIMS):
        if not is_ok(o):
            continue
        n += 1
        st = o[1]
        for e in o[1].events():
            if e[0] == "op" and writes_name(e[1]) and e[1].startswith("db."):
                cx.check(False, "C30|flush|changes", where(e), "a flush changes the stored balances", o[1])
        cx.check(any(e[1] == "db.flush" for e in ops(o, "db.flush")), "C30|flush", at, "flush reports success without flushing the store",
                 st)
    cx.check(n > 0, "C30|flush|never", at, "flush never succeeds")


# ------------------------------------------------------------------ admission of transactions
SEND = TREE + "send_transaction"


def send_runs(cx, distinct=True):
    """outcomes of submitting an opaque transaction"""
    def go():
        tx = sym("transaction")

        def setup(st, vals):
            s, r = txcall("get_sender", tx), txcall("get_receiver", tx)
            st.assume(eq(s, r), not distinct)
        return cx.run(cx.need(SEND), args={1: tx}, setup=setup, prims=LPRIMS, panics=True, limit=300, steps=3000000)
    return cx.memo(("send", distinct), go)


def txcall(m, tx):
    v = mk("call", "transaction::Transactionable::" + m, tx)
    if m in ("get_sender", "get_receiver"):
        ALEN.setdefault(v, 33)
    if m == "hash":
        ALEN.setdefault(v, 32)
    return v


def record_dbs(cx):
    """the store that transaction lookups of the main chain read, seen from the tree"""
    def go():
        dbs = set()
        for o in cx.run(MAIN + "transaction_exists", prims=LPRIMS):
            for e in ops(o, "db.get", "db.contains"):
                dbs.add(e[2][0])
        return dbs
    return cx.memo("record_dbs", go)


def last_field(v):
    return v.a[1] if v.k == "fld" else None


def is_record_write(cx, w):
    names = {last_field(d) for d in record_dbs(cx)}
    return last_field(w[0]) in names


def admission(cx, o, dbs):
    """what the facts of a path establish about the submitted transaction"""
    st = o[1]
    tx = sym("transaction")
    v = txcall("verify", tx)
    out = {}
    out["signature"] = st.variant(v) == 0 and st.truth(mk("vf", v, 0, 0)) is True
    snd = txcall("get_sender", tx)
    size = txcall("get_dump_size", tx)
    price = [t for c in facts_terms(st) for t in subterms(c) if t.k == "mul" and size in subterms(t)]
    gas = old_balance(st, dbs["gas"], snd)
    out["price"] = price[0] if price else None
    out["gas"] = gas is not None and any(is_price(p, size) and st.prove(sub(gas, p)) for p in price)
    coins = old_balance(st, dbs["coins"], snd)
    am = txcall("get_amount", tx)
    i = st.variant(am)
    a = integer(0) if i == 0 else mk("vf", am, 1, 0)
    fees = {t for c in facts_terms(st) for t in subterms(c) if t.k == "fee"}
    out["fees"] = fees
    out["coins"] = coins is not None and any(current_fee(cx, st, t) and st.prove(sub(coins, add(t, a))) for t in fees)
    out["amount"] = None if i != 1 else a
    return out


def facts_terms(st):
    return list(st.bools) + list(st.lin) + list(st.eqs) + list(st.eqs.values())


def is_price(p, size):
    """the price per byte times the size"""
    xs = p.a[0] if isinstance(p.a[0], tuple) else p.a
    rest = [x for x in xs if x is not size]
    return len(rest) == 1 and size in xs and any(b"BYTE_GAS_PRICE" in repr(t.a).encode() for t in subterms(rest[0]))


def current_fee(cx, st, t):
    """computed from the difficulty of the block stored at the greatest height"""
    for x in subterms(t):
        if x.k == "dbget" and last_field(x.a[0]) == "blocks" and x.a[1].k == "be":
            h = x.a[1].a[1]
            c, d = lin_of(h)
            if c == -1 and len(d) == 1 and list(d.values()) == [1] and list(d)[0].k == "lkval":
                if any(y.k == "fld" and y.a[1] == "difficulty" for y in subterms(t)):
                    return True
                return any(same(st, t.a[0], y) for y in difficulties(cx, mk("vf", x, 1, 0)))
    return False


def difficulties(cx, data):
    """the difficulty of the block that the bytes decode to"""
    def go():
        out = set()
        for o in cx.run("block::deserialize_main_chain_block", args={0: data}):
            if is_ok(o):
                for b in subterms(okval(o)):
                    if b.k == "adt" and b.a[0] == "block::BasicInfo":
                        out.add(dict((n[0], x) for n, x in named_fields(cx.P, b) if len(n) == 1).get("difficulty"))
        return out - {None}
    return cx.memo(("difficulties", data), go)


@rule("C08")
def c08(cx):
    """on every path of send_transaction that commits a write, the facts include: the signature verified, gas balance >= byte
    price * size, coin balance >= current fee + amount; accepting paths record the transaction under its hash and move
    exactly the amount and charge exactly that gas; refusing paths commit nothing; Transaction::verify answers with the
    library's check of the signature over the unsigned bytes by the sender"""
    P = cx.P
    dbs = ledger_dbs(cx)
    at = fn_where(P, cx.need(SEND))
    tx = sym("transaction")
    snd, rcv = txcall("get_sender", tx), txcall("get_receiver", tx)
    for distinct in (True, False):
        n = 0
        for o in send_runs(cx, distinct):
            if o[0] == "panic":
                continue
            st = o[1]
            fx = Effects(o)
            for e in fx.other:
                cx.undecided("C08|effect", where(e), "effect %s" % e[1])
            adm = admission(cx, o, dbs)
            if fx.writes:
                for w, txt in (("signature", "without a valid signature"), ("gas", "without the gas price of its bytes being held"),
                               ("coins", "without the current fee plus the amount being held")):
                    cx.check(adm[w], "C08|admission|" + w, where(fx.writes[0][4]), "a transaction has effects " + txt, st)
            if not is_ok(o):
                continue
            n += 1
            recs = [w for w in fx.writes if is_record_write(cx, w)]
            cx.check(len(recs) == 1, "C08|recorded", at, "an accepted transaction is recorded %d times" % len(recs), st)
            for w in recs:
                d = mk("vf", txcall("dump", tx), 0, 0)
                cx.check(w[2] is not None and same(st, w[2], d) and (same(st, w[1], mk("hash", d)) or same(st, w[1], txcall("hash", tx))),
                         "C08|record", where(w[4]), "recorded as %s under %s" % (show(w[2], 3) if w[2] is not None else "-", show(w[1], 3)),
                         st, (w[1],) + ((w[2],) if w[2] is not None else ()))
            a = adm["amount"]
            if a is None:
                continue
            want = [("coins", snd, scale(a, -1)), ("coins", rcv, a)] if distinct else [("coins", snd, integer(0))]
            for lg, acct, dl in want:
                check_change(cx, "C08|moves|%s" % ("self" if not distinct else "sender" if acct is snd else "receiver"), at, fx, dbs[lg],
                             acct, dl, "an accepted transaction, coins")
            if adm["price"] is not None:
                check_change(cx, "C08|gas", at, fx, dbs["gas"], snd, scale(adm["price"], -1), "an accepted transaction, gas of the sender")
            for w in fx.writes:
                if w in recs:
                    continue
                okk = w[0] is dbs["coins"] and any(same(st, w[1], x) for x in (snd, rcv)) or w[0] is dbs["gas"] and same(st, w[1], snd)
                cx.check(okk, "C08|others", where(w[4]), "an accepted transaction also writes %s in %s" % (show(w[1], 3), show(w[0], 3)), st,
                         (w[1],))
        cx.check(n > 0, "C08|never", at, "no transaction is ever accepted")
    verify_rule(cx)


def check_change(cx, key, at, fx, db, acct, dl, text):
    st = fx.o[1]
    f = fx.final(db, acct)
    if f is None:
        cx.undecided(key, at, text + ": account not decided")
        return
    old = old_balance(st, db, acct)
    if isinstance(f, str):
        cx.check(f == "old" and same(st, dl, integer(0)), key, at, text + ": the balance is not changed", st)
        return
    new = decode(f)
    if old is None or new is None:
        cx.check(False, key, at, "%s: the balance becomes %s" % (text, show(f, 4)), st, (f,))
        return
    cx.check(same(st, new, add(old, dl)), key, at, "%s: the balance becomes %s instead of %s" % (text, show(new, 4), show(add(old, dl), 4)),
             st, (new,))


def verify_rule(cx):
    """Transaction::verify says true only after the library accepted the signature"""
    P = cx.P
    fn = TXT + "verify"
    if not cx.has(fn):
        return
    at = fn_where(P, fn)
    n = 0
    for o in cx.run(fn, panics=False):
        if o[0] != "ret" or not is_ok(o):
            continue
        st = o[1]
        r = okval(o)
        if r.k == "bool" and r.a[0] is False:
            continue
        checks = [e for e in ops(o, "sig.verify")]
        if r.k != "bool":
            cx.check(False, "C08|verify", at, "the answer is %s" % show(r, 3), st, (r,))
            continue
        n += 1
        good = [e for e in checks if e[2][3].k == "bool" and e[2][3].a[0] is True]
        cx.check(bool(good), "C08|verify|checked", at, "a transaction verifies without its signature being accepted", st)
        me = sym(first_arg(P, fn))
        for e in good:
            m, sg, pk = e[2][:3]
            for what, val, fldn in (("key", pk, "sender"), ("signature", sg, "signature")):
                cx.check(any(x.k == "fld" and x.a[1] == fldn and x.a[0] is me for x in subterms(val)), "C08|verify|" + what, where(e),
                         "the %s checked is %s" % (what, show(val, 4)), st, (val,))
    cx.check(n > 0, "C08|verify|never", at, "no transaction ever verifies")


def first_arg(P, path):
    return P.bodies[path]["locals"][1].get("name") or "arg0"


@rule("C09")
def c09(cx):
    """on every path of send_transaction that commits a write, the transaction's hash was looked up in the record store and
    found absent before the first write, and an accepting path records it under the same hash; every constructor of a
    transaction makes that hash the hash of its serialized bytes"""
    P = cx.P
    at = fn_where(P, cx.need(SEND))
    tx = sym("transaction")
    recs = {last_field(d) for d in record_dbs(cx)}
    keys = {txcall("hash", tx), mk("hash", mk("vf", txcall("dump", tx), 0, 0))}
    for distinct in (True, False):
        for o in send_runs(cx, distinct):
            if o[0] == "panic":
                continue
            st = o[1]
            fx = Effects(o)
            if not fx.writes:
                continue
            evs = o[1].events()
            first = min(evs.index(w[4]) for w in fx.writes)
            looked = [e for e in evs[:first] if e[0] == "op" and e[1] in ("db.contains", "db.get") and last_field(e[2][0]) in recs
                      and any(same(st, e[2][1], k) for k in keys)
                      and (e[3].k == "bool" and e[3].a[0] is False or st.variant(e[3]) == 0)]
            # an insert that reports what was there before is a lookup, too
            ins = [e for e in evs if e[0] == "op" and e[1] in ("db.insert", "tx.insert") and last_field(e[2][0]) in recs]
            claimed = [e for e in ins if st.variant(e[3]) == 0 and evs.index(e) <= first]
            cx.check(bool(looked or claimed), "C09|lookup", where(fx.writes[0][4]),
                     "a transaction has effects although its record was not looked up and found absent", st)
            if is_ok(o):
                cx.check(any(same(st, w[1], k) for w in fx.writes if is_record_write(cx, w) for k in keys), "C09|record", at,
                         "an accepted transaction is not recorded under its hash", st)
    hash_is_of_dump(cx)


def hash_is_of_dump(cx):
    """the hash of a constructed transaction is that of its bytes"""
    P = cx.P
    hp, dp = TXT + "hash", TXT + "dump"
    if not (cx.has(hp) and cx.has(dp)):
        return
    for c in sorted(p for p in P.bodies if p.startswith((TXI, TXT)) and "{" not in p):
        b = P.bodies[c]
        rt = P.tstr(b["locals"][0]["t"])
        if not (rt.endswith("Transaction") or "Result<" in rt and "transaction::Transaction," in rt) or not (b.get("pub") or b.get("impl_trait")):
            continue
        for o in cx.run(c):
            if o[0] != "ret":
                continue
            v = o[2]
            if is_ok(o):
                v = okval(o)
            elif is_err(o):
                continue
            if v.k != "adt":
                cx.undecided("C09|hash|" + c, fn_where(P, c), "builds %s" % show(v, 2))
                continue
            for o1 in cx.run(hp, args={0: v}, st=o[1].copy()):
                for o2 in cx.run(dp, args={0: v}, st=o1[1].copy()) if o1[0] == "ret" else ():
                    if o2[0] == "ret" and is_ok(o2):
                        d = mk("hash", okval(o2))
                        cx.check(same(o2[1], o1[2], d), "C09|hash|" + c, fn_where(P, c),
                                 "a transaction made by %s has the hash %s, recorded is the hash of its bytes %s"
                                 % (c, show(o1[2], 4), show(d, 4)), o2[1], (o1[2], d))
