"""Models: machine integers, U256/BigUint, hashing, transmute."""
from .terms import *
from . import terms as T
from .mcore import model, MODELS, ret, panic, W, fork, cases, then, callv, fresh, targ, order


def be(n, x):
    if x.k == "int" and 0 <= x.a[0] < (1 << (8 * n)):
        return mk("bytes", tuple(x.a[0].to_bytes(n, "big")))
    if x.k == "u256c" and n == 32:
        return mk("arr", tuple(reversed(x.a[0])))
    if x.k == "limb" and n == len(x.a[0]):
        return mk("arr", tuple(reversed(x.a[0])))
    if x.k == "frombe" and length(x.a[0]) is integer(n):
        return x.a[0]
    if x.k == "bswap":
        return le_(n, x.a[0])
    return mk("be", n, x)


def le_(n, x):
    if x.k == "int" and 0 <= x.a[0] < (1 << (8 * n)):
        return mk("bytes", tuple(x.a[0].to_bytes(n, "little")))
    if x.k == "u256c" and n == 32:
        return mk("arr", x.a[0])
    if x.k == "limb" and n == len(x.a[0]):
        return mk("arr", x.a[0])
    if x.k == "bswap":
        return be(n, x.a[0])
    b = be(n, x)
    if b.k == "be":
        return reverse_(b)
    if b.k in ("bytes", "arr"):
        return mk(b.k, tuple(reversed(b.a[0])))
    return reverse_(b)


def frombe(v, n=None):
    """the big-endian number in the byte sequence v (n: its length, when fixed)"""
    if v.k == "be":
        return v.a[1]
    segs = list(as_segs(v))
    while segs:
        s = segs[0]
        if s.k == "b" and s.a[0].k == "int" and s.a[0].a[0] == 0:
            segs.pop(0)
        elif s.k == "cat" and s.a[0].k == "rept" and s.a[0].a[0].k == "int" and s.a[0].a[0].a[0] == 0:
            segs.pop(0)
        else:
            break
    v2 = seq(tuple(segs)) if len(segs) != len(as_segs(v)) else v
    if v2.k == "be":
        return v2.a[1]
    if v2.k == "u256be":
        return v2.a[0]
    if not segs:
        return integer(0)
    if v2.k == "bytes":
        return integer(int.from_bytes(bytes(v2.a[0]), "big"))
    if v2.k == "arr" and all(e.k == "int" for e in v2.a[0]):
        return integer(int.from_bytes(bytes(e.a[0] for e in v2.a[0]), "big"))
    if v2.k == "arr":
        # elements of one big-endian dump, in order
        x = whole_be(v2)
        if x is not None:
            return x
    r = mk("frombe", v2)
    L = length(v2)
    hi = None
    if L.k == "int":
        hi = (1 << (8 * L.a[0])) - 1
    elif n is not None:
        hi = (1 << (8 * n)) - 1
    RANGE.setdefault(r, (0, hi))
    return r


T.SMART["frombe"] = lambda v: frombe(v)
T.SMART["be"] = be


def whole_be(v):
    xs = v.a[0]
    e0 = xs[0]
    if e0.k == "elem" and e0.a[0].k == "be" and e0.a[0].a[0] == len(xs):
        b = e0.a[0]
        if all(e.k == "elem" and e.a[0] is b and e.a[1] is integer(i) for i, e in enumerate(xs)):
            return b.a[1]
    return None


def fromle(v, n=None):
    if v.k in ("bytes", "arr"):
        return frombe(mk(v.k, tuple(reversed(v.a[0]))), n)
    if v.k == "rept":
        return frombe(v, n)
    return frombe(reverse_(v), n)


def _len_of_self(eng, c):
    rg = eng.int_type(c.argts[0]) if c.argts and c.argts[0] is not None else None
    if rg is None:
        return None
    m = rg[1] - rg[0] + 1
    return (m.bit_length() - 1) // 8


def num_name(c):
    return (c.callee.get("res") or c.callee["path"])


@model("core::num::to_be_bytes", "core::num::to_le_bytes", "core::num::to_ne_bytes")
def m_tobytes(eng, st, c):
    v = W(eng, st, c.args[0])
    n = _len_of_self(eng, c)
    v = st.norm(v)
    if c.path.endswith("to_be_bytes"):
        return ret(st, be(n, v))
    return ret(st, le_(n, v))


@model("core::num::to_be", "core::num::from_be", "core::num::swap_bytes")
def m_tobe(eng, st, c):
    v = W(eng, st, c.args[0])
    n = _len_of_self(eng, c)
    if v.k == "int":
        return ret(st, integer(int.from_bytes(v.a[0].to_bytes(n, "little"), "big")))
    if v.k == "bswap":
        return ret(st, v.a[0])
    r = mk("bswap", v)
    RANGE.setdefault(r, (0, (1 << (8 * n)) - 1))
    return ret(st, r)


@model("core::num::to_le", "core::num::from_le")
def m_tole(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("core::num::from_be_bytes", "core::num::from_le_bytes", "core::num::from_ne_bytes")
def m_frombytes(eng, st, c):
    v = W(eng, st, c.args[0])
    rg = eng.int_type(c.dt)
    n = (rg[1] - rg[0]).bit_length() // 8 if rg else None
    return ret(st, frombe(v, n) if c.path.endswith("be_bytes") else fromle(v, n))


@model("core::num::leading_zeros")
def m_lz(eng, st, c):
    v = W(eng, st, c.args[0])
    n = _len_of_self(eng, c) * 8
    if v.k == "int":
        return ret(st, integer(n - v.a[0].bit_length()))
    lo, hi = lin_range(v)
    if hi is not None and lo is not None and hi.bit_length() == lo.bit_length():
        return ret(st, integer(n - hi.bit_length()))
    r = mk("lz", v, n)
    RANGE.setdefault(r, (n - hi.bit_length() if hi is not None else 0, n - (lo or 0).bit_length()))
    return ret(st, r)


@model("core::num::rotate_left", "core::num::rotate_right")
def m_rot(eng, st, c):
    v, k = st.norm(W(eng, st, c.args[0])), st.norm(W(eng, st, c.args[1]))
    w = _len_of_self(eng, c) * 8
    if v.k == "int" and k.k == "int":
        n = k.a[0] % w
        if c.path.endswith("right"):
            n = (w - n) % w
        x = v.a[0]
        return ret(st, integer(((x << n) | (x >> (w - n))) & ((1 << w) - 1)))
    r = mk("call", c.path, v, k)
    RANGE.setdefault(r, (0, (1 << w) - 1))
    return ret(st, r)


@model("core::num::trailing_zeros", "core::num::count_ones", "core::num::count_zeros", "core::num::ilog2",
       "core::num::isqrt", "core::num::trailing_ones", "core::num::leading_ones", "primitive_types::U256::trailing_zeros")
def m_tz(eng, st, c):
    v = W(eng, st, c.args[0])
    if v.k == "int" and v.a[0] >= 0:
        x, w = v.a[0], _len_of_self(eng, c) * 8
        f = c.path.rsplit("::", 1)[1]
        if f == "count_ones":
            return ret(st, integer(bin(x).count("1")))
        if f == "count_zeros":
            return ret(st, integer(w - bin(x).count("1")))
        if f == "trailing_zeros":
            return ret(st, integer(w if x == 0 else (x & -x).bit_length() - 1))
        if f == "ilog2" and x > 0:
            return ret(st, integer(x.bit_length() - 1))
    f = c.path.rsplit("::", 1)[1]
    r = mk("call", c.path, v) if f in ("ilog2", "isqrt") else mk("bitcount", f, v)
    RANGE.setdefault(r, (0, 256))
    return ret(st, r)


def srange(st, v, rg):
    return conj(nn(sub(v, integer(rg[0]))), nn(sub(integer(rg[1]), v)))


def rng(eng, c):
    t = c.argts[0] if c.argts and c.argts[0] is not None else c.dt
    return eng.int_type(t)


def raw(eng, st, op, a, b):
    if op == "add":
        return add(a, b)
    if op == "sub":
        return sub(a, b)
    if op == "mul":
        return mul(a, b)
    if op == "pow":
        if b.k == "int" and b.a[0] <= 8:
            r = integer(1)
            for _ in range(b.a[0]):
                r = mul(r, a)
            return r
        if a.k == "int" and a.a[0] == 2:
            return pow2(b)
        if a.k == "int" and b.k == "int":
            return integer(a.a[0] ** b.a[0]) if b.a[0] < 2000 else mk("pow", a, b)
        r = mk("pow", a, b)
        RANGE.setdefault(r, (0, None))
        return r
    return None


def divlike(eng, st, c, a, b, op, zero):
    """zero(st)->outs when the divisor is 0"""
    r = []
    for s, z in fork(eng, st, ieq(b, integer(0))):
        if z:
            r.extend(zero(s))
        else:
            r.append(("ret", s, div(s.norm(a), b) if op == "div" else eng.rem_(s, a, b)))
    return r


def arith_model(prefix, name, ops):
    pass


for _pre in ("core::num::", "primitive_types::U256::", "num_bigint::BigUint::"):
    for _op in ("add", "sub", "mul", "pow"):
        def _checked(eng, st, c, _op=_op):
            a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
            v = raw(eng, st, _op, a, b)
            rg = rng(eng, c) or (0, T.U256)
            return [("ret", s, some(v) if okv else NONE) for s, okv in fork(eng, st, srange(st, v, rg))]

        def _overflowing(eng, st, c, _op=_op):
            a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
            v = raw(eng, st, _op, a, b)
            rg = rng(eng, c) or (0, T.U256)
            return [("ret", s, mk("tup", v, FALSE) if okv else mk("tup", eng.wrap(s, v, rg), TRUE))
                    for s, okv in fork(eng, st, srange(st, v, rg))]

        def _sat(eng, st, c, _op=_op):
            a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
            v = raw(eng, st, _op, a, b)
            rg = rng(eng, c) or (0, T.U256)
            r = []
            for s, okv in fork(eng, st, srange(st, v, rg)):
                if okv:
                    r.append(("ret", s, v))
                else:
                    r.append(("ret", s, integer(rg[0] if _op == "sub" else rg[1])))
            return r

        def _wrapping(eng, st, c, _op=_op):
            a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
            v = raw(eng, st, _op, a, b)
            rg = rng(eng, c) or (0, T.U256)
            return ret(st, eng.wrap(st, v, rg))
        MODELS[_pre + "checked_" + _op] = _checked
        MODELS[_pre + "overflowing_" + _op] = _overflowing
        MODELS[_pre + "saturating_" + _op] = _sat
        MODELS[_pre + "wrapping_" + _op] = _wrapping

    def _cdiv(eng, st, c):
        a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
        return [(o[0], o[1], o[2] if o[2] is NONE or o[0] != "ret" else some(o[2])) for o in
                divlike(eng, st, c, a, b, "div" if "div" in c.path else "rem", lambda s: ret(s, NONE))]
    MODELS[_pre + "checked_div"] = _cdiv
    MODELS[_pre + "checked_rem"] = _cdiv

    def _pow(eng, st, c):
        a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
        v = raw(eng, st, "pow", a, b)
        rg = rng(eng, c) or (0, T.U256)
        r = []
        for s, okv in fork(eng, st, srange(st, v, rg)):
            r.extend(ret(s, v) if okv else panic(s, "overflow", c))
        return r
    MODELS[_pre + "pow"] = _pow

    def _absdiff(eng, st, c):
        a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
        return [("ret", s, sub(b, a) if x else sub(a, b)) for s, x in fork(eng, st, le(a, b))]
    MODELS[_pre + "abs_diff"] = _absdiff


@model("core::num::div_ceil", "core::num::next_multiple_of")
def m_divceil(eng, st, c):
    a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    q = div(add(a, sub(b, integer(1))), b)
    return divlike(eng, st, c, a, b, "div", lambda s: panic(s, "div by zero", c)) if False else \
        [(o[0], o[1], (q if c.path.endswith("ceil") else mul(q, b)) if o[0] == "ret" else o[2]) for o in
         divlike(eng, st, c, a, b, "div", lambda s: panic(s, "div by zero", c))]


@model("core::num::is_power_of_two")
def m_ispow2(eng, st, c):
    return ret(st, mk("ispow2", W(eng, st, c.args[0])))


@model("core::num::checked_shl", "core::num::checked_shr", "core::num::wrapping_shl", "core::num::wrapping_shr")
def m_shl(eng, st, c):
    a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    rg = rng(eng, c)
    v = eng.shift(st, "Shl" if c.path.endswith("shl") else "Shr", a, b, rg)
    if "wrapping" in c.path:
        return ret(st, v)
    n = (rg[1] - rg[0]).bit_length()
    return [("ret", s, some(v) if x else NONE) for s, x in fork(eng, st, lt(b, integer(n)))]


# operator traits (references, U256, BigUint, assignments)
def optrait(op):
    def f(eng, st, c):
        a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
        return bin_op(eng, st, c, op, a, b, c.dt)
    return f


def bin_op(eng, st, c, op, a, b, t):
    rg = (eng.int_type(t) if t is not None else None) or (None if is_big(eng, t) else (0, T.U256))
    if op in ("add", "sub", "mul"):
        v = raw(eng, st, op, a, b)
        if rg is None:
            return ret(st, v) if op != "sub" else [
                ("ret", s, v) if x else panic(s, "overflow", c)[0] for s, x in fork(eng, st, le(b, a))]
        r = []
        for s, okv in fork(eng, st, srange(st, v, rg)):
            r.extend(ret(s, v) if okv else panic(s, "overflow:" + op, c))
        return r
    if op in ("div", "rem"):
        return divlike(eng, st, c, a, b, op, lambda s: panic(s, "division by zero", c))
    if op in ("shl", "shr"):
        return ret(st, eng.shift(st, "Shl" if op == "shl" else "Shr", a, b, rg))
    return ret(st, eng.bit(st, {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[op], a, b, rg,
                           eng.ty(eng.peel(t))["k"] == "bool" if t is not None else False))


def is_big(eng, t):
    if t is None:
        return False
    d = eng.ty(eng.peel(t))
    return d["k"] == "adt" and "BigUint" in d["path"]


for _n, _tr in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem"), ("shl", "Shl"),
                ("shr", "Shr"), ("bitand", "BitAnd"), ("bitor", "BitOr"), ("bitxor", "BitXor")):
    MODELS["std::ops::%s::%s" % (_tr, _n)] = optrait(_n)

    def _assign(eng, st, c, _n=_n):
        a = c.args[0]
        x, b = W(eng, st, a), W(eng, st, c.args[1])
        outs = bin_op(eng, st, c, _n, x, b, eng.peel(c.argts[0]) if c.argts[0] is not None else None)

        def fin(s, v):
            if a.k == "ref":
                eng.write_cell(s, a.a[0], a.a[1], v)
            else:
                s.taint("assign")
            return ret(s, UNIT)
        return then(outs, fin)
    MODELS["std::ops::%sAssign::%s_assign" % (_tr, _n)] = _assign


# ------------------------------------------------------------------ U256
U = "primitive_types::U256::"
MODELS[U + "zero"] = MODELS["num_traits::Zero::zero"] = lambda eng, st, c: ret(st, integer(0))
MODELS[U + "one"] = MODELS["num_traits::One::one"] = lambda eng, st, c: ret(st, integer(1))
MODELS[U + "max_value"] = lambda eng, st, c: ret(st, integer(T.U256))
MODELS[U + "is_zero"] = MODELS["num_traits::Zero::is_zero"] = \
    lambda eng, st, c: ret(st, ieq(tonum(W(eng, st, c.args[0])), integer(0)))


def tonum(v):
    return v


@model(U + "bits", "num_bigint::BigUint::bits")
def m_bits(eng, st, c):
    v = W(eng, st, c.args[0])
    return ret(st, bits(st, v))


def bits(st, v):
    if v.k == "int":
        return integer(v.a[0].bit_length())
    lo, hi = lin_range(v)
    if v.k == "u256c":
        n = max([i + 1 for i, b in enumerate(v.a[0]) if not (b.k == "int" and b.a[0] == 0)] or [0])
        if n == 0:
            return integer(0)
        top = v.a[0][n - 1]
        l, h = lin_range(top)
        lo, hi = (1 << (8 * (n - 1))) * (l or 0), (1 << (8 * (n - 1))) * (h + 1) - 1
    if lo is not None and hi is not None and lo.bit_length() == hi.bit_length():
        return integer(hi.bit_length())
    r = mk("bits", v)
    RANGE.setdefault(r, ((lo or 0).bit_length(), hi.bit_length() if hi is not None else None))
    return r


@model(U + "leading_zeros")
def m_u256lz(eng, st, c):
    v = W(eng, st, c.args[0])
    return ret(st, sub(integer(256), bits(st, v)))


@model(U + "byte")
def m_byte(eng, st, c):
    v, i = W(eng, st, c.args[0]), c.args[1]
    if v.k == "u256c" and i.k == "int":
        return ret(st, v.a[0][i.a[0]])
    return ret(st, elem(be(32, v), sub(integer(31), i)))


@model(U + "from_big_endian", U + "from_little_endian")
def m_frombig(eng, st, c):
    v = W(eng, st, c.args[0])
    r = []
    for s, x in fork(eng, st, le(st.norm(length(v)), integer(32))):
        if x:
            r.append(("ret", s, frombe(v, 32) if "big" in c.path else fromle(v, 32)))
        else:
            r.extend(panic(s, "from_big_endian: more than 32 bytes", c))
    return r


@model(U + "to_big_endian", U + "to_little_endian")
def m_tobig(eng, st, c):
    v = st.norm(W(eng, st, c.args[0]))
    a = c.args[1]
    cur = W(eng, st, a)
    r = []
    x = be(32, v) if "big" in c.path else le_(32, v)
    for s, okv in fork(eng, st, ieq(st.norm(length(cur)), integer(32))):
        if okv:
            if a.k == "ref":
                eng.write_cell(s, a.a[0], a.a[1], x)
            else:
                s.taint("to_big_endian target")
            r.append(("ret", s, UNIT))
        else:
            r.extend(panic(s, "to_big_endian: buffer is not 32 bytes", c))
    return r


@model(U + "from_dec_str", U + "from_str_radix")
def m_dec(eng, st, c):
    v = W(eng, st, c.args[0])
    if v.k == "str":
        try:
            return ret(st, ok(integer(int(v.a[0].decode(), 10 if "dec" in c.path else 16))))
        except ValueError:
            return ret(st, err(mk("parseerr", v)))
    return ret(st, mk("call", c.path, v))


for _n in ("as_u64", "as_u32", "as_u128", "as_usize", "low_u64", "low_u32", "low_u128"):
    def _as(eng, st, c, _n=_n):
        v = W(eng, st, c.args[0])
        rg = eng.int_type(c.dt)
        if "low" in _n:
            return ret(st, eng.cast(st, v, "IntToInt", c.dt, c.dt))
        r = []
        for s, x in fork(eng, st, nn(sub(integer(rg[1]), v))):
            r.extend(ret(s, v) if x else panic(s, "as_ overflow", c))
        return r
    MODELS[U + _n] = _as


@model(U + "div_mod")
def m_divmod(eng, st, c):
    a, b = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    return [(o[0], o[1], mk("tup", o[2], rem(a, b)) if o[0] == "ret" else o[2]) for o in
            divlike(eng, st, c, a, b, "div", lambda s: panic(s, "division by zero", c))]


B = "num_bigint::BigUint::"


@model(B + "from_bytes_be", B + "from_bytes_le")
def m_bfrom(eng, st, c):
    v = W(eng, st, c.args[0])
    return ret(st, frombe(v) if c.path.endswith("be") else fromle(v))


@model(B + "to_bytes_be", B + "to_bytes_le")
def m_bto(eng, st, c):
    v = W(eng, st, c.args[0])
    if v.k == "biguintc":      # a class of numbers with n significant bytes, least significant first
        xs = v.a[0] if v.a[0] else (integer(0),)
        return ret(st, mk("arr", tuple(xs) if c.path.endswith("le") else tuple(reversed(xs))))
    r = mk("bigbytes", v)
    return ret(st, r if c.path.endswith("be") else reverse_(r))


# ------------------------------------------------------------------ limbs and transmute
def limbs_of(v):
    bs = v.a[0]
    return mk("arr", tuple(limb(bs[8 * i:8 * i + 8]) for i in range(4)))


def limb(bs):
    if all(b.k == "int" for b in bs):
        return integer(int.from_bytes(bytes(b.a[0] for b in bs), "little"))
    r = mk("limb", tuple(bs))
    RANGE.setdefault(r, (0, T.U64))
    return r


def from_limbs(x):
    if x.k == "limbs":
        return x.a[0]
    if x.k == "arr" and len(x.a[0]) == 4 and all(e.k == "int" for e in x.a[0]):
        return integer(sum(e.a[0] << (64 * i) for i, e in enumerate(x.a[0])))
    if x.k == "rept" and x.a[0].k == "int":
        return integer(sum(x.a[0].a[0] << (64 * i) for i in range(4)))
    r = mk("ofl", x)
    RANGE.setdefault(r, (0, T.U256))
    return r


def transmute(eng, st, v, ft, t):
    """bytes <-> words"""
    fd, td = eng.ty(ft), eng.ty(t)
    if fd["k"] == "adt" and td["k"] == "adt":
        return v
    if td["k"] in ("ref", "ptr") or fd["k"] in ("ref", "ptr"):
        if eng.ty(eng.peel(ft))["s"] == eng.ty(eng.peel(t))["s"]:
            return v
    fd, td = eng.ty(eng.peel(ft)), eng.ty(eng.peel(t))

    def dims(d):
        if d["k"] == "array" and isinstance(d["len"], dict) and "const" in d["len"]:
            e = eng.ty(d["elem"])
            if e["k"] == "uint":
                return d["len"]["const"], e["bits"] // 8
        return None
    a, b = dims(fd), dims(td)
    if a == b:
        return v
    if a and b and a[0] * a[1] == b[0] * b[1]:
        if a[1] == 1:
            r = mk("words", v, b[1])
            ALEN.setdefault(r, b[0])
            return r
        if b[1] == 1 and v.k == "words" and v.a[1] == a[1]:
            return v.a[0]
        r = mk("unwords", v, a[1])
        ALEN.setdefault(r, b[0])
        return r
    return mk("unk", "transmute", v)


@model("std::intrinsics::transmute", "std::mem::transmute")
def m_transmute(eng, st, c):
    v = c.args[0] if c.args[0].k != "ref" else W(eng, st, c.args[0])
    return ret(st, transmute(eng, st, v, c.argts[0], c.dt))


# ------------------------------------------------------------------ sha2
@model("sha2::Digest::new")
def m_shanew(eng, st, c):
    return ret(st, mk("sha", EMPTY))


def cat_(a, b):
    return seq(tuple(as_segs(a)) + tuple(as_segs(b)))


@model("sha2::Digest::update", "sha2::digest::Update::update")
def m_shaup(eng, st, c):
    a = c.args[0]
    h = W(eng, st, a)
    v = W(eng, st, c.args[1])
    if h.k == "sha" and a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], mk("sha", cat_(h.a[0], v)))
    else:
        eng.havoc_args(st, [a], [None], "sha")
        st.taint("hasher")
    return ret(st, UNIT)


@model("sha2::Digest::chain_update", "sha2::digest::Update::chain", "sha2::Digest::chain")
def m_shachain(eng, st, c):
    h = W(eng, st, c.args[0])
    v = W(eng, st, c.args[1])
    return ret(st, mk("sha", cat_(h.a[0], v)) if h.k == "sha" else mk("unk", "hasher", h))


@model("sha2::Digest::new_with_prefix")
def m_shapre(eng, st, c):
    return ret(st, mk("sha", cat_(EMPTY, W(eng, st, c.args[0]))))


def hash_of(v):
    return mk("hash", v)


@model("sha2::Digest::finalize", "sha2::digest::FixedOutput::finalize_fixed")
def m_shafin(eng, st, c):
    h = W(eng, st, c.args[0])
    return ret(st, hash_of(h.a[0]) if h.k == "sha" else mk("hash", mk("unk", "hasher", h)))


@model("sha2::Digest::finalize_reset")
def m_shafr(eng, st, c):
    a = c.args[0]
    h = W(eng, st, a)
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], mk("sha", EMPTY))
    return ret(st, hash_of(h.a[0]) if h.k == "sha" else mk("hash", mk("unk", "hasher", h)))


@model("sha2::Digest::reset")
def m_shareset(eng, st, c):
    a = c.args[0]
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], mk("sha", EMPTY))
    return ret(st, UNIT)


@model("sha2::Digest::digest")
def m_digest(eng, st, c):
    return ret(st, hash_of(W(eng, st, c.args[0])))


# byteorder
BO = "byteorder::ReadBytesExt::"
for _n, _b in (("read_u8", 1), ("read_u16", 2), ("read_u32", 4), ("read_u64", 8), ("read_u128", 16)):
    def _rd(eng, st, c, _b=_b):
        from . import mio
        big = not any("LittleEndian" in eng.P.tstr(a["ty"]) for a in c.callee.get("args", []) if "ty" in a)
        return then(mio.read_some(eng, st, c, c.args[0], integer(_b)),
                    lambda s, v: ret(s, ok((frombe if big else fromle)(v.a[2][0], _b))) if v.a[1] == 0 else ret(s, v))
    MODELS[BO + _n] = _rd

for _n, _b in (("write_u8", 1), ("write_u16", 2), ("write_u32", 4), ("write_u64", 8), ("write_u128", 16)):
    def _wr(eng, st, c, _b=_b):
        from . import mio
        big = not any("LittleEndian" in eng.P.tstr(a["ty"]) for a in c.callee.get("args", []) if "ty" in a)
        x = W(eng, st, c.args[1])
        return mio.write_some(eng, st, c, c.args[0], be(_b, x) if big else le_(_b, x))
    MODELS["byteorder::WriteBytesExt::" + _n] = _wr

for _n, _b in (("u16", 2), ("u32", 4), ("u64", 8), ("u128", 16)):
    MODELS["byteorder::ByteOrder::read_" + _n] = lambda eng, st, c, _b=_b: ret(
        st, frombe(slice_(W(eng, st, c.args[0]), integer(0), integer(_b)), _b))


# secp256k1 : deterministic functions of their inputs
S = "secp256k1::"


def fall(name):
    """a deterministic fallible function"""
    def f(eng, st, c):
        vs = [W(eng, st, a) for a in c.args]
        t = mk("call", name, *vs)
        r = []
        for s, i, p in cases(eng, st, t, c.dt):
            r.append(("ret", s, ok(p) if i == 0 else err(p)))
        return r
    return f


for _n in ("Message::from_digest_slice", "PublicKey::from_slice", "SecretKey::from_slice",
           "ecdsa::Signature::from_compact"):
    MODELS[S + _n] = fall(S + _n)


@model(S + "Message::from_digest_slice")
def m_digest_slice(eng, st, c):
    # succeeds exactly on 32 bytes
    v = W(eng, st, c.args[0])
    t = mk("call", S + "Message::from_digest_slice", v)
    n = st.norm(length(v))
    r = []
    s1 = st.copy()
    if s1.assume(ieq(n, integer(32)), True) and s1.assume_var(t, 0):
        r.append(("ret", s1, ok(mk("vf", t, 0, 0))))
    if st.assume(ieq(n, integer(32)), False) and st.assume_var(t, 1):
        r.append(("ret", st, err(mk("vf", t, 1, 0))))
    return r


MODELS[S + "Message::from_digest"] = lambda eng, st, c: ret(
    st, mk("vf", mk("call", S + "Message::from_digest_slice", W(eng, st, c.args[0])), 0, 0))
for _n in ("context::alloc_only::new", "context::alloc_only::verification_only", "context::alloc_only::signing_only"):
    MODELS[S + _n] = lambda eng, st, c: ret(st, mk("secp"))


@model(S + "ecdsa::verify_ecdsa")
def m_verify(eng, st, c):
    m, sg, pk = [W(eng, st, a) for a in c.args[-3:]]
    t = mk("call", S + "verify", m, sg, pk)
    r = []
    for s, i, p in cases(eng, st, t, c.dt):
        s.ev("op", "sig.verify", (m, sg, pk, boolv(i == 0)), UNIT, c.site)
        r.append(("ret", s, ok(UNIT) if i == 0 else err(p)))
    return r


@model(S + "ecdsa::sign_ecdsa")
def m_sign(eng, st, c):
    m, sk = [W(eng, st, a) for a in c.args[-2:]]
    return ret(st, mk("call", S + "sign", m, sk))


@model(S + "ecdsa::Signature::serialize_compact")
def m_sercompact(eng, st, c):
    v = mk("call", S + "compact", W(eng, st, c.args[0]))
    ALEN.setdefault(v, 64)
    return ret(st, v)


@model(S + "PublicKey::serialize")
def m_pkser(eng, st, c):
    v = mk("call", S + "pkser", W(eng, st, c.args[0]))
    ALEN.setdefault(v, 33)
    return ret(st, v)


@model(S + "PublicKey::from_secret_key")
def m_pkfrom(eng, st, c):
    return ret(st, mk("call", S + "pkof", W(eng, st, c.args[1])))
