"""Analysis context: the program and the standard function summaries."""
import time
from .terms import *
from . import terms as T
from .mirload import Program
from .engine import Eng, State, run_fn, Budget, Unsupported
from . import models as M
from .mcore import ret, W, fork, cases, then


def load(path):
    P = Program(path)
    for p in P.bodies:
        if p.startswith("<static_values::") and p.endswith("std::ops::Deref>::deref"):
            M.MODELS["local:" + p] = M.lazy_static(p[1:].split(" as ")[0])
    constants(P)
    return P


def constants(P):
    """the numbers lazily initialised constants stand for, where their initialisers determine them"""
    todo = [p for p in P.bodies if p.startswith("<static_values::") and p.endswith("::__static_ref_initialize")]
    for p in todo:
        RANGE[mk("static", p[1:].split(" as ")[0])] = (0, T.U256)
    for _ in range(len(todo)):
        for p in list(todo):
            try:
                outs = run_fn(Eng(P, {}, max_steps=20000), p)
            except Exception:
                todo.remove(p)
                continue
            if len(outs) == 1 and outs[0][0] == "ret" and is_int(outs[0][2]):
                r = lin_range(outs[0][1].norm(outs[0][2]))
                if r[0] is not None and r[0] == r[1]:
                    RANGE[mk("static", p[1:].split(" as ")[0])] = r
                    todo.remove(p)


# ---- summaries of the integer helpers; C04 and C05 check them against their bodies
def p_dump_u256(eng, st, c):
    x = W(eng, st, c.args[0])
    M.mseq.setref(eng, st, c.args[1], seq(tuple(as_segs(W(eng, st, c.args[1]))) + (mk("u256", st.norm(x)),)))
    return ret(st, ok(UNIT))


def p_load_u256(eng, st, c):
    d = W(eng, st, c.args[0])
    n = st.norm(length(d))
    sg = as_segs(d)
    if sg and sg[0].k == "u256":
        return ret(st, ok(mk("tup", sg[0].a[0], mk("nb", sg[0].a[0]))))
    v, k = mk("lu", d), mk("lun", d)
    RANGE.setdefault(v, (0, T.U256))
    out = []
    s1 = st.copy()
    out.append(("ret", s1, err(mk("report", mk("badint", d), ERRV))))
    if st.assume(lt(k, n), True):
        out.append(("ret", st, ok(mk("tup", v, k))))
    return out


def p_u256_size(eng, st, c):
    x = W(eng, st, c.args[0])
    return ret(st, add(integer(1), mk("nb", st.norm(x))))


def p_clz(eng, st, c):
    return ret(st, T.clz(W(eng, st, c.args[0])))


def p_check_pow(eng, st, c):
    a = [W(eng, st, x) for x in c.args]
    if len(a) == 4 and st.norm(length(a[2])).k == "int" and st.norm(length(a[2])).a[0] == 0:
        a[2] = mk("arr", ())
    return ret(st, mk("pow_ok", *a))


def p_recalc(eng, st, c):
    t0, t1 = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    d = W(eng, st, c.args[2])
    r = mk("nextdiff", st.norm(t0), st.norm(t1), d)
    ALEN.setdefault(r, 32)
    M.mseq.setref(eng, st, c.args[2], r)
    return ret(st, UNIT)


def p_fee(eng, st, c):
    r = mk("fee", W(eng, st, c.args[0]))
    RANGE.setdefault(r, (0, T.U256))
    return ret(st, r)


def p_build_tree(eng, st, c):
    return ret(st, mk("mtree", W(eng, st, c.args[0])))


def p_get_root(eng, st, c):
    v = W(eng, st, c.args[0])
    r = mk("mroot", v.a[0] if v.k == "mtree" else v)
    ALEN.setdefault(r, 32)
    return ret(st, r)


STD = {
    "tools::dump_u256": p_dump_u256, "tools::load_u256": p_load_u256, "tools::u256_size": p_u256_size,
    "tools::count_leading_zeros": p_clz, "tools::check_pow": p_check_pow,
    "tools::recalculate_difficulty": p_recalc, "tools::recalculate_fee": p_fee,
    "merkletree::MerkleTree::build_tree": p_build_tree, "merkletree::MerkleTree::get_root": p_get_root,
}


def prims(*skip, **extra):
    d = {k: v for k, v in STD.items() if k.split("::")[-1] not in skip}
    return d
