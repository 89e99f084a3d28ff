"""Obligations, verdicts and the vocabulary the rules share."""
import time
from .ctx import *
from . import ctx as _ctx
from .witness import witness

RULES = {}
TREE = "blockchaintree::BlockChainTree::"
MAIN = "chain::MainChain::"
DERIV = "chain::DerivativeChain::"
TXT = "<transaction::Transaction as transaction::Transactionable>::"
TXI = "transaction::Transaction::"
KINDS = ("TransactionBlock", "SummarizeBlock", "DerivativeBlock")


def blk(kind, m):
    return "<block::%s as block::Block>::%s" % (kind, m)


def rule(prop):
    def d(f):
        RULES[prop] = f
        return f
    return d


class Missing(Exception):
    def __init__(self, name):
        self.name = name


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, P, prop, tier="quick", budget=600):
        self.P = P
        self.prop = prop
        self.tier = tier
        self.obs = []          # (verdict, key, where, text)
        self.visited = set()
        self.callsites = set()
        self.loops = set()
        self.notes = set()
        self.paths = 0
        self.events = 0
        self.runs = []
        self.t_end = time.time() + budget
        self._memo = {}

    # ---- running the interpreter
    def has(self, path):
        return path in self.P.bodies

    def need(self, path):
        if path not in self.P.bodies:
            raise Missing(path)
        return path

    def run(self, path, args=None, setup=None, prims=None, panics=False, seq_locks=True, faults=True, st=None,
            limit=120, steps=400000, merge=True, shapes=False):
        self.need(path)
        e = Eng(self.P, STD if prims is None else prims, max_steps=steps)
        e.keep_panics = panics
        e.seq_locks = seq_locks
        e.fork_faults = faults
        e.no_merge = not merge
        e.concrete_shapes = shapes
        e.deadline = min(self.t_end, time.time() + limit)
        if st is not None:
            st = st.copy()
        try:
            outs = run_fn(e, path, args=args, setup=setup, st=st)
        except Missing:
            raise
        except (Budget, Unsupported, RecursionError) as x:
            self.undecided(path, path, "not analysed: %r" % (x,))
            raise Undecided(path)
        except Exception as x:      # a construct the interpreter does not handle
            self.undecided(path, path, "not analysed: %s: %s" % (type(x).__name__, x))
            raise Undecided(path)
        self.visited |= e.visited
        self.callsites |= e.callsites
        self.loops |= set(e.loops)
        self.notes |= e.notes
        self.paths += len(outs)
        self.events += sum(len(o[1].events()) for o in outs)
        self.runs.append(path)
        return outs

    def memo(self, key, f):
        if key not in self._memo:
            self._memo[key] = f()
        return self._memo[key]

    # ---- obligations
    def ok(self, key, where, text=""):
        self.obs.append(("ok", key, where, text))

    def bad(self, key, where, text):
        self.obs.append(("bad", key, where, text))

    def undecided(self, key, where, text):
        self.obs.append(("unk", key, where, text))

    def violated(self, key, where, text, st, vals=()):
        """a path that must not exist: reported when its facts are consistent"""
        if st.unk or any(vague(v) for v in vals):
            self.undecided(key, where, text + " [%s]" % ", ".join(st.unk[:3]))
        elif unsure(st):
            self.undecided(key, where, text + " [a condition on %s]" % unsure(st))
        elif witness(st) is None:
            self.undecided(key, where, text + " [no consistent instance of the path found]")
        else:
            self.bad(key, where, text)

    def check(self, cond, key, where, text, st=None, vals=()):
        """cond True: discharged.  Otherwise violated, unless what was compared is not fully known."""
        if cond:
            self.ok(key, where, text)
            return True
        if (st is not None and st.unk) or any(vague(v) for v in vals):
            self.undecided(key, where, text + (" [%s]" % ", ".join(st.unk[:3]) if st is not None and st.unk else ""))
            return False
        if st is not None and unsure(st):
            self.undecided(key, where, text + " [a condition on %s]" % unsure(st))
            return False
        self.bad(key, where, text)
        return False


# kinds of terms whose value the interpreter does not know
VAGUE = ("unk", "havoc", "loopvar", "awaited", "item", "collected", "inf", "capacity", "dbget?", "partial", "nread", "loop")
KNOWN_CALLS = ("block::Block::", "transaction::Transactionable::", "<transaction::Transaction as", "secp256k1")


def vague(v):
    """mentions a value that some unmodelled operation produced"""
    if not isinstance(v, V):
        return False
    return any(_vague1(a) for a in subterms(v))


# unmodelled calls whose answer follows from their arguments, so that facts known about those may decide it
COMPUTED = tuple(a + b for a in ("std::", "core::", "alloc::")
                 for b in ("slice::", "vec::", "iter::", "option::", "result::", "str::", "string::", "array::", "num::", "char::"))


def unsure(st):
    """the path depends on what some unmodelled computation answers: it may not exist"""
    for f in list(st.lin) + list(st.bools) + list(st.vars) + [x for e in st.eqs.items() for x in e]:
        if isinstance(f, V):
            for a in subterms(f):
                if a.k == "call" and isinstance(a.a[0], str) and a.a[0].startswith(COMPUTED) and _vague1(a):
                    return a.a[0]
    return None


def _vague1(a):
    if a.k in VAGUE:
        return True
    if a.k == "call":
        p = a.a[0]
        return not (isinstance(p, str) and p.startswith(KNOWN_CALLS))
    return False


_sub = {}


def subterms(v):
    r = _sub.get(v)
    if r is not None:
        return r
    out = []
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        for c in children(x):
            work.append(c)
    _sub[v] = out
    return out


def children(x):
    for c in x.a:
        if isinstance(c, V):
            yield c
        elif isinstance(c, tuple):
            yield from _tup(c)


def _tup(t):
    for c in t:
        if isinstance(c, V):
            yield c
        elif isinstance(c, tuple):
            yield from _tup(c)


# ---- reading outcomes
def is_ok(o):
    return o[0] == "ret" and o[2].k == "adt" and o[2].a[0] == RESULT and o[2].a[1] == 0


def is_err(o):
    return o[0] == "ret" and o[2].k == "adt" and o[2].a[0] == RESULT and o[2].a[1] == 1


def okval(o):
    return o[2].a[2][0]


def ops(o, *names):
    return [e for e in o[1].events() if e[0] == "op" and (not names or e[1] in names)]


def faults(o, *names):
    return [e for e in o[1].events() if e[0] == "fault" and (not names or e[1] in names)]


def where(e):
    """file:line of an event"""
    if e[0] == "lockset":
        return "write to lock %s" % show(e[1], 4)
    s = e[-1]
    if isinstance(s, tuple) and len(s) == 2:
        return "%s (%s)" % (s[1], s[0])
    return str(s)


def fn_where(P, path):
    b = P.bodies.get(path)
    sp = b.get("sp") if b else None
    return "%s (%s)" % (sp, path) if sp else path


def proved(st, c, want=True):
    return st.truth(c) is want


def same(st, a, b):
    """provably equal values under the facts of the path"""
    a, b = st.norm(a) if is_int(a) else a, st.norm(b) if is_int(b) else b
    if a is b:
        return True
    c = eq(a, b) if not (is_int(a) and is_int(b)) else ieq(a, b)
    if c.k == "bool":
        return c.a[0]
    if st.truth(c) is True:
        return True
    d = deepnorm(st, c)
    if d.k == "bool":
        return d.a[0]
    if st.truth(d) is True:
        return True
    return alpha(deepnorm(st, a)) is alpha(deepnorm(st, b))


def alpha(v, depth=0):
    """bound indices named by their nesting depth"""
    if not any(x.k in ("rep", "repalt") for x in subterms(v)):
        return v
    m = {}

    def go(t, d):
        if isinstance(t, tuple):
            return tuple(go(x, d) for x in t)
        if not isinstance(t, V) or not any(x.k in ("rep", "repalt") for x in subterms(t)):
            return t
        if t.k in ("rep", "repalt") and isinstance(t.a[1], V) and t.a[1].k == "bv":
            c = mk("bv", "#", integer(d))
            if t.a[1] in RANGE:
                RANGE.setdefault(c, RANGE[t.a[1]])
            body = go(t.a[2], d + 1)
            body = tuple(_sub_in(x, {t.a[1]: c}) for x in body) if isinstance(body, tuple) else subst(body, {t.a[1]: c})
            return mk(t.k, go(t.a[0], d), c, body)
        return mk(t.k, *[go(x, d) for x in t.a])
    return go(v, depth)


def _sub_in(x, m):
    if isinstance(x, tuple):
        return tuple(_sub_in(y, m) for y in x)
    return subst(x, m) if isinstance(x, V) else x


def deepnorm(st, v):
    """rewrite with the solved equalities, inside structured values too"""
    if not st.eqs:
        return v
    for _ in range(4):
        w = subst(v, st.eqs)
        if w is v:
            return v
        v = w
    return v


def differ(st, a, b):
    if a is b:
        return False
    c = eq(a, b) if not (is_int(a) and is_int(b)) else ieq(a, b)
    if c.k == "bool":
        return not c.a[0]
    return st.truth(c) is False


def sym(n):
    return mk("sym", n)


def fld(v, name):
    return mk("fld", v, name)


def u256sym(n):
    v = sym(n)
    RANGE[v] = (0, T.U256)
    return v


def bsym(n, k):
    v = sym(n)
    ALEN[v] = k
    return v


# ---- roles of the private stores, read off the constructor
def named_fields(P, v, pre=()):
    """[(names, value)] of a constructed struct"""
    out = []
    if v.k == "adt" and v.a[0] in P.adts:
        a = P.adts[v.a[0]]
        fs = a["variants"][v.a[1]]["fields"]
        for f, x in zip(fs, v.a[2]):
            n = f["name"] if isinstance(f, dict) else f[0]
            out.append((pre + (n,), x))
            out.extend(named_fields(P, x, pre + (n,)))
    return out


def ref_of(root, names):
    v = root
    for n in names:
        v = fld(v, n)
    return v


def path_strings(v):
    """the constant components of a path term, outermost last"""
    out = []
    for x in subterms(v):
        if x.k in ("str", "bytes") and x.a and isinstance(x.a[0], bytes):
            out.append(x.a[0].decode("latin1"))
    return out
