"""The table of library models and the treatment of everything not in it."""
from .terms import *
from . import terms as T
from .mcore import MODELS, ret, panic, W, fork, cases, then, callv, fresh, targ, is_opt, default_of
from . import mnum, mseq, mio
from .mnum import limbs_of, from_limbs, transmute
from .mio import run_future

# functions of the crate that only dereference a lazily initialised constant
LAZY = ("local:<static_values::",)


def lazy_static(name):
    def f(eng, st, c):
        v = mk("static", name)
        RANGE.setdefault(v, (0, T.U256))
        return ret(st, v)
    return f


def fallback(eng, st, c):
    """an external function without a model"""
    p = c.path
    eng.notes.add(p)
    args = [W(eng, st, a) for a in c.args]
    last = p.split("::")[-1]
    if p.startswith("std::fmt::") or p.startswith("core::fmt::"):
        return ret(st, mk("call", p, *args))
    if p.startswith(("core::panicking", "std::rt::panic", "std::panicking", "core::option::expect_failed",
                     "core::result::unwrap_failed")):
        return panic(st, "panic", c)
    muts = [a for a in c.args if any(x.k == "ref" for x in eng.owned(a))]
    closs = [a for a in args if a.k in ("clos",)]
    if muts or closs:
        st.taint("unmodelled:" + p)
        eng.havoc_args(st, c.args, c.argts, p)
        st.ctr += 1
        v = mk("call", p, *(args + [integer(st.ctr)]))
    else:
        v = mk("call", p, *args)
    effectful = p.startswith(("sled::", "std::fs::", "tokio::", "std::io::", "zstd::", "std::process", "std::env",
                              "std::net", "std::thread", "parking_lot::"))
    if effectful:
        st.taint("unmodelled:" + p)
        st.ev("extern", p, tuple(args), c.site)
        st.ctr += 1
        v = mk("call", p, *(args + [integer(st.ctr)]))
    return opaque_result(eng, st, c, v)


def opaque_result(eng, st, c, v):
    t = c.dt
    if t is None:
        return ret(st, v)
    d = eng.ty(t)
    if d["k"] == "tuple" and not d["elems"]:
        return ret(st, UNIT)
    if d["k"] == "never":
        return panic(st, "diverges", c)
    return ret(st, eng.typed(v, t))
