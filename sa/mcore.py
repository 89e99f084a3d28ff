"""Models of library functions: registry, helpers, Option/Result, conversions."""
from .terms import *
from . import terms as T

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(st, v):
    return [("ret", st, v)]


def panic(st, msg, c):
    return [("panic", st, (msg, c.site[0], c.site[1]))]


def W(eng, st, v):
    """the value behind references and guards"""
    for _ in range(4):
        if v.k == "ref":
            v = eng.load_ref(st, v)
        elif v.k == "guard":
            v = eng.guard_value(st, v)
        elif v.k in ("sym", "fld", "vf", "elem") and ("anon", v) in st.cells:
            v = st.cells[("anon", v)]
            break
        else:
            break
    return v


def targ(eng, t, i):
    """i-th type argument of the (peeled) type t"""
    if t is None:
        return None
    d = eng.ty(eng.peel(t))
    if d["k"] == "adt" and i < len(d["args"]):
        a = d["args"][i]
        # lifetimes may be listed too
        tys = [x["ty"] for x in d["args"] if "ty" in x]
        return tys[i] if i < len(tys) else None
    return None


def cases(eng, st, v, t=None):
    """[(state, variant, payload or None)] of an Option (0 None, 1 Some) or Result"""
    v = W(eng, st, v)
    if v.k == "adt":
        return [(st, v.a[1], v.a[2][0] if v.a[2] else None)]
    i = st.variant(v)
    isopt = None
    if t is not None:
        d = eng.ty(eng.peel(t))
        if d["k"] == "adt":
            isopt = d["path"] == OPTION
    out = []
    for j in (0, 1):
        if i is not None and i != j:
            continue
        s = st.copy() if i is None else st
        if not s.assume_var(v, j):
            continue
        if isopt and j == 0:
            p = None
        else:
            p = mk("vf", v, j, 0)
            if t is not None:
                pt = targ(eng, t, 0 if isopt else j)
                if pt is not None:
                    eng.typed(p, pt)
        out.append((s, j, p))
    return out


def is_opt(eng, t):
    if t is None:
        return True
    d = eng.ty(eng.peel(t))
    return d["k"] == "adt" and d["path"] == OPTION


def then(outs, f):
    """sequence: f(st, v) for every normal outcome"""
    r = []
    for o in outs:
        if o[0] == "ret":
            r.extend(f(o[1], o[2]))
        else:
            r.append(o)
    return r


def callv(eng, st, f, args, c, tag=0):
    return eng.call_value(st, f, list(args), None, c.site, c.frame, ("cv", c.key, tag))


def fork(eng, st, cond):
    """[(state, bool)]"""
    t = st.truth(cond)
    out = []
    for val in (True, False):
        if t is not None and t != val:
            continue
        s = st.copy() if t is None else st
        if s.assume(cond, val):
            out.append((s, val))
    return out


def fresh(st, kind, *a):
    st.ctr += 1
    return mk(kind, *(a + (integer(st.ctr),)))


# ------------------------------------------------------------------ Try / ?
@model("std::ops::Try::branch")
def m_branch(eng, st, c):
    out = []
    opt = is_opt(eng, c.argts[0])
    for s, i, p in cases(eng, st, c.args[0], c.argts[0]):
        if opt:
            out.append(("ret", s, adt(CFLOW, 0, p) if i == 1 else adt(CFLOW, 1, NONE)))
        else:
            out.append(("ret", s, adt(CFLOW, 0, p) if i == 0 else adt(CFLOW, 1, err(p))))
    return out


@model("std::ops::FromResidual::from_residual")
def m_residual(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("std::ops::Try::from_output")
def m_output(eng, st, c):
    return ret(st, some(c.args[0]) if is_opt(eng, c.dt) else ok(c.args[0]))


def optres(names, onpos, onneg, nocall=True):
    """a combinator: onpos(eng,st,c,payload)->outs for Some/Ok, onneg(eng,st,c,payload)->outs"""
    def f(eng, st, c):
        opt = is_opt(eng, c.argts[0])
        pos = 1 if opt else 0
        r = []
        for s, i, p in cases(eng, st, c.args[0], c.argts[0]):
            r.extend((onpos if i == pos else onneg)(eng, s, c, p))
        return r
    for n in names:
        MODELS[n] = f


O = "std::option::Option::"
R = "std::result::Result::"


def wrap_pos(c, eng):
    return some if is_opt(eng, c.dt) else ok


def keep(eng, s, c, p):
    """the original value of the negative case"""
    if is_opt(eng, c.argts[0]):
        return ret(s, NONE)
    return ret(s, err(p))


def pos_same(eng, s, c, p):
    return ret(s, some(p) if is_opt(eng, c.argts[0]) else ok(p))


def unreach(eng, s, c, p):
    return panic(s, "unwrap", c)


payload = lambda eng, s, c, p: ret(s, p)

optres([O + "unwrap", O + "expect", R + "unwrap", R + "expect"], payload, unreach)
optres([R + "unwrap_err", R + "expect_err"], unreach, payload)
optres([O + "unwrap_unchecked", R + "unwrap_unchecked"], payload,
       lambda eng, s, c, p: (s.ev("unchecked", c.path, c.site), panic(s, "unchecked-unwrap", c))[1])
optres([O + "unwrap_or", R + "unwrap_or"], payload, lambda eng, s, c, p: ret(s, c.args[1]))
optres([O + "unwrap_or_else", R + "unwrap_or_else"], payload,
       lambda eng, s, c, p: callv(eng, s, c.args[1], [p] if p is not None else [], c))
optres([O + "unwrap_or_default", R + "unwrap_or_default"], payload,
       lambda eng, s, c, p: ret(s, default_of(eng, s, c.dt)))
optres([O + "map", R + "map"],
       lambda eng, s, c, p: then(callv(eng, s, c.args[1], [p], c), lambda s2, v: ret(s2, wrap_pos(c, eng)(v))), keep)
optres([O + "map_or", R + "map_or"],
       lambda eng, s, c, p: callv(eng, s, c.args[2], [p], c), lambda eng, s, c, p: ret(s, c.args[1]))
optres([O + "map_or_else", R + "map_or_else"],
       lambda eng, s, c, p: callv(eng, s, c.args[2], [p], c),
       lambda eng, s, c, p: callv(eng, s, c.args[1], [p] if p is not None else [], c, 1))
optres([R + "map_err"], pos_same,
       lambda eng, s, c, p: then(callv(eng, s, c.args[1], [p], c), lambda s2, v: ret(s2, err(v))))
optres([O + "and_then", R + "and_then"], lambda eng, s, c, p: callv(eng, s, c.args[1], [p], c), keep)
optres([O + "or_else", R + "or_else"], pos_same,
       lambda eng, s, c, p: callv(eng, s, c.args[1], [p] if p is not None else [], c))
optres([O + "or", R + "or"], pos_same, lambda eng, s, c, p: ret(s, W(eng, s, c.args[1])))
optres([O + "and", R + "and"], lambda eng, s, c, p: ret(s, W(eng, s, c.args[1])), keep)
optres([O + "ok_or"], lambda eng, s, c, p: ret(s, ok(p)), lambda eng, s, c, p: ret(s, err(c.args[1])))
optres([O + "ok_or_else"], lambda eng, s, c, p: ret(s, ok(p)),
       lambda eng, s, c, p: then(callv(eng, s, c.args[1], [], c), lambda s2, v: ret(s2, err(v))))
optres([R + "ok"], lambda eng, s, c, p: ret(s, some(p)), lambda eng, s, c, p: ret(s, NONE))
optres([R + "err"], lambda eng, s, c, p: ret(s, NONE), lambda eng, s, c, p: ret(s, some(p)))
optres([O + "is_some", R + "is_ok"], lambda eng, s, c, p: ret(s, TRUE), lambda eng, s, c, p: ret(s, FALSE))
optres([O + "is_none", R + "is_err"], lambda eng, s, c, p: ret(s, FALSE), lambda eng, s, c, p: ret(s, TRUE))
optres([O + "is_some_and", R + "is_ok_and"], lambda eng, s, c, p: callv(eng, s, c.args[1], [p], c),
       lambda eng, s, c, p: ret(s, FALSE))
optres([O + "is_none_or"], lambda eng, s, c, p: callv(eng, s, c.args[1], [p], c),
       lambda eng, s, c, p: ret(s, TRUE))
optres([O + "filter"],
       lambda eng, s, c, p: then(callv(eng, s, c.args[1], [p], c),
                                 lambda s2, v: [("ret", s3, some(p) if b else NONE) for s3, b in fork(eng, s2, v)]),
       keep)
optres([O + "cloned", O + "copied", R + "cloned", R + "copied", O + "as_deref", R + "as_deref"],
       lambda eng, s, c, p: ret(s, wrap_pos(c, eng)(W(eng, s, p))), keep)
optres([O + "flatten", R + "flatten"], payload, keep)
optres([O + "inspect", R + "inspect"],
       lambda eng, s, c, p: then(callv(eng, s, c.args[1], [p], c), lambda s2, v: pos_same(eng, s2, c, p)), keep)
optres([R + "inspect_err"], pos_same,
       lambda eng, s, c, p: then(callv(eng, s, c.args[1], [p], c), lambda s2, v: ret(s2, err(p))))
optres([O + "xor"], lambda eng, s, c, p: ret(s, mk("unk", "xor", 0)), lambda eng, s, c, p: ret(s, c.args[1]))
optres([O + "zip"],
       lambda eng, s, c, p: [("ret", s2, some(mk("tup", p, q)) if i else NONE)
                             for s2, i, q in cases(eng, s, c.args[1], c.argts[1])], keep)


@model(O + "transpose", R + "transpose")
def m_transpose(eng, st, c):
    r = []
    if is_opt(eng, c.argts[0]):
        for s, i, p in cases(eng, st, c.args[0], c.argts[0]):
            if i == 0:
                r.append(("ret", s, ok(NONE)))
            else:
                for s2, j, q in cases(eng, s, p, targ(eng, c.argts[0], 0)):
                    r.append(("ret", s2, ok(some(q)) if j == 0 else err(q)))
    else:
        for s, i, p in cases(eng, st, c.args[0], c.argts[0]):
            if i == 1:
                r.append(("ret", s, some(err(p))))
            else:
                for s2, j, q in cases(eng, s, p, targ(eng, c.argts[0], 0)):
                    r.append(("ret", s2, some(ok(q)) if j == 1 else NONE))
    return r


@model(O + "as_ref", R + "as_ref", O + "as_slice")
def m_asref(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model(O + "as_mut", R + "as_mut", O + "as_deref_mut")
def m_asmut(eng, st, c):
    a = c.args[0]
    r = []
    opt = is_opt(eng, c.argts[0])
    pos = 1 if opt else 0
    for s, i, p in cases(eng, st, a, c.argts[0]):
        if i != pos:
            r.extend(keep(eng, s, c, p))
            continue
        if a.k == "ref":
            v = W(eng, s, a)
            if v.k != "adt":
                eng.write_cell(s, a.a[0], a.a[1], some(p) if opt else ok(p))
            r.append(("ret", s, (some if opt else ok)(mk("ref", a.a[0], a.a[1] + (("o", pos, 0),)))))
        else:
            r.append(("ret", s, (some if opt else ok)(p)))
    return r


@model(O + "take")
def m_take(eng, st, c):
    a = c.args[0]
    v = W(eng, st, a)
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], NONE)
    return ret(st, v)


@model(O + "replace", O + "insert")
def m_replace(eng, st, c):
    a = c.args[0]
    v = W(eng, st, a)
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], some(c.args[1]))
        if c.path.endswith("insert"):
            return ret(st, mk("ref", a.a[0], a.a[1] + (("o", 1, 0),)))
    return ret(st, v)


@model(O + "get_or_insert_with", O + "get_or_insert")
def m_goi(eng, st, c):
    a = c.args[0]
    r = []
    for s, i, p in cases(eng, st, a, c.argts[0]):
        if i == 1:
            r.append(("ret", s, mk("ref", a.a[0], a.a[1] + (("o", 1, 0),))))
        else:
            outs = callv(eng, s, c.args[1], [], c) if c.path.endswith("with") else ret(s, c.args[1])

            def fin(s2, v):
                eng.write_cell(s2, a.a[0], a.a[1], some(v))
                return ret(s2, mk("ref", a.a[0], a.a[1] + (("o", 1, 0),)))
            r.extend(then(outs, fin))
    return r


# ------------------------------------------------------------------ error_stack
@model("error_stack::ResultExt::change_context", "error_stack::ResultExt::change_context_lazy")
def m_chctx(eng, st, c):
    r = []
    for s, i, p in cases(eng, st, c.args[0], c.argts[0]):
        if i == 0:
            r.append(("ret", s, ok(p)))
        else:
            r.append(("ret", s, err(mk("report", c.args[1], p))))
    return r


@model("error_stack::ResultExt::attach_printable", "error_stack::ResultExt::attach",
       "error_stack::ResultExt::attach_printable_lazy", "error_stack::ResultExt::attach_lazy")
def m_attach(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("error_stack::IntoReport::into_report")
def m_intor(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("error_stack::Report::new", "error_stack::Report::from")
def m_report(eng, st, c):
    return ret(st, mk("report", c.args[0], ERRV))


@model("error_stack::Report::attach_printable", "error_stack::Report::attach",
       "error_stack::Report::attach_printable_lazy")
def m_rattach(eng, st, c):
    return ret(st, c.args[0])


@model("error_stack::Report::change_context")
def m_rchg(eng, st, c):
    return ret(st, mk("report", c.args[1], c.args[0]))


@model("error_stack::Report::current_context")
def m_rcur(eng, st, c):
    v = W(eng, st, c.args[0])
    return ret(st, v.a[0] if v.k == "report" else mk("call", "current_context", v))


# ------------------------------------------------------------------ no-effect
def noop(*names):
    def f(eng, st, c):
        return ret(st, UNIT)
    for n in names:
        MODELS[n] = f


noop("std::io::_print", "std::io::_eprint", "log::__private_api::log")
for n in ("std::fmt::Arguments::new", "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1",
          "std::fmt::Arguments::from_str", "std::fmt::Arguments::new_v1_formatted"):
    MODELS[n] = lambda eng, st, c: ret(st, mk("fmtargs", *[W(eng, st, a) for a in c.args]))
for n in ("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_display",
          "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex"):
    MODELS[n] = lambda eng, st, c: ret(st, mk("fmtarg", c.path.split("_", 1)[1], W(eng, st, c.args[0])))
MODELS["std::fmt::format"] = lambda eng, st, c: ret(st, mk("fmtstr", c.args[0]))
MODELS["std::hint::must_use"] = lambda eng, st, c: ret(st, c.args[0])
MODELS["std::hint::black_box"] = lambda eng, st, c: ret(st, c.args[0])
MODELS["std::convert::identity"] = lambda eng, st, c: ret(st, c.args[0])
MODELS["hex::encode"] = lambda eng, st, c: ret(st, mk("hex", W(eng, st, c.args[0])))


@model("std::string::ToString::to_string")
def m_tostring(eng, st, c):
    v = W(eng, st, c.args[0])
    if v.k == "str" or is_strty(eng, c.argts[0]):
        return ret(st, v)
    return ret(st, mk("fmtstr", v))


def is_strty(eng, t):
    if t is None:
        return False
    d = eng.ty(eng.peel(t))
    return d["k"] == "str" or (d["k"] == "adt" and d["path"] == "std::string::String")


def dropm(eng, st, c):
    for a in c.args:
        eng.drop_value(st, a, c.site)
    return ret(st, UNIT)


MODELS["std::mem::drop"] = dropm
MODELS["core::mem::drop"] = dropm
MODELS["std::mem::forget"] = lambda eng, st, c: ret(st, UNIT)


@model("std::mem::replace")
def m_mreplace(eng, st, c):
    a = c.args[0]
    v = W(eng, st, a)
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], c.args[1])
    return ret(st, v)


@model("std::mem::take")
def m_mtake(eng, st, c):
    a = c.args[0]
    v = W(eng, st, a)
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], default_of(eng, st, c.dt))
    return ret(st, v)


@model("std::mem::swap")
def m_mswap(eng, st, c):
    a, b = c.args
    if a.k == "ref" and b.k == "ref":
        x, y = W(eng, st, a), W(eng, st, b)
        eng.write_cell(st, a.a[0], a.a[1], y)
        eng.write_cell(st, b.a[0], b.a[1], x)
    return ret(st, UNIT)


@model("std::mem::size_of", "core::mem::size_of")
def m_sizeof(eng, st, c):
    for a in c.callee.get("args", []):
        t = a.get("ty")
        if t is not None:
            d = eng.ty(t)
            if d["k"] in ("uint", "int"):
                return ret(st, integer(d["bits"] // 8))
            if d["k"] == "bool":
                return ret(st, integer(1))
            if d["k"] == "array" and isinstance(d["len"], dict) and "const" in d["len"]:
                e = eng.ty(d["elem"])
                if e["k"] == "uint":
                    return ret(st, integer(d["len"]["const"] * e["bits"] // 8))
            if d["k"] == "adt" and d["path"] == "primitive_types::U256":
                return ret(st, integer(32))
    return ret(st, mk("unk", "sizeof", c.path))


# ------------------------------------------------------------------ clone / default / refs
def ident(*names):
    def f(eng, st, c):
        return ret(st, W(eng, st, c.args[0]))
    for n in names:
        MODELS[n] = f


ident("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::borrow::Borrow::borrow",
      "core::slice::to_vec", "std::slice::to_vec", "std::string::String::as_bytes", "core::str::as_bytes",
      "std::string::String::as_str", "std::vec::Vec::as_slice", "std::vec::Vec::into_boxed_slice",
      "std::string::String::into_bytes", "std::path::Path::new", "std::path::Path::as_os_str",
      "std::path::Path::to_path_buf", "std::path::PathBuf::as_path", "std::ffi::OsStr::to_os_string",
      "std::path::PathBuf::into_os_string", "std::slice::into_vec", "core::array::as_slice",
      "std::borrow::Cow::into_owned", "std::string::String::from", "std::boxed::Box::new",
      "std::boxed::Box::pin", "std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::as_mut",
      "std::sync::Arc::new", "std::rc::Rc::new", "std::convert::AsRef::as_ref", "std::sync::Arc::clone",
      "std::str::String::into_boxed_str", "sled::IVec::to_vec", "std::iter::Iterator::by_ref",
      "sha2::digest::generic_array::GenericArray::as_slice", "std::future::IntoFuture::into_future",
      "std::pin::pin", "std::num::Wrapping", "std::path::Path::as_ref",
      "std::vec::Vec::leak", "std::boxed::Box::into_pin", "std::boxed::box_assume_init_into_vec_unsafe", "std::sync::Arc::as_ref", "std::sync::Arc::unwrap_or_clone")


@model("std::boxed::Box::new_uninit")
def m_newuninit(eng, st, c):
    return ret(st, mk("unk", "uninit", c.site))


@model("std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::as_mut", "std::pin::pin",
       "std::boxed::Box::pin", "std::boxed::Box::new", "std::future::IntoFuture::into_future",
       "std::iter::Iterator::by_ref", "std::pin::Pin::get_mut", "std::pin::Pin::get_unchecked_mut",
       "std::sync::Arc::new", "std::rc::Rc::new", "std::boxed::Box::into_pin",
       "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut", "std::vec::Vec::as_mut_slice",
       "std::mem::ManuallyDrop::new", "std::convert::identity")
def m_keep(eng, st, c):
    return ret(st, c.args[0])


@model("std::ops::Deref::deref")
def m_deref(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("std::ops::DerefMut::deref_mut")
def m_derefmut(eng, st, c):
    a = c.args[0]
    if a.k == "ref":
        v = eng.load_ref(st, a)
        if v.k == "guard":
            eng.guard_value(st, v)
            return ret(st, mk("ref", ("lock", v.a[0]), ()))
        if v.k == "ref":
            return ret(st, v)
    if a.k == "guard":
        eng.guard_value(st, a)
        return ret(st, mk("ref", ("lock", a.a[0]), ()))
    return ret(st, a)


def default_of(eng, st, t):
    if t is None:
        return mk("unk", "default", 0)
    d = eng.ty(t)
    if d["k"] == "ref" and eng.ty(d["elem"])["k"] in ("slice", "str"):
        return EMPTY if eng.ty(d["elem"])["k"] == "slice" else mk("str", b"")
    if d["k"] in ("uint", "int"):
        return integer(0)
    if d["k"] == "bool":
        return FALSE
    if d["k"] == "array":
        n = d["len"].get("const")
        return mk("rept", default_of(eng, st, d["elem"]), integer(n))
    if d["k"] == "tuple":
        return mk("tup", *[default_of(eng, st, e) for e in d["elems"]])
    if d["k"] == "adt":
        p = d["path"]
        if p == OPTION:
            return NONE
        if p in ("std::vec::Vec", "sled::IVec"):
            return EMPTY
        if p == "std::string::String":
            return mk("str", b"")
        if p == "primitive_types::U256" or p.startswith("num_bigint::BigUint"):
            return integer(0)
        if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
            return mk("emptymap")
        if p in ("std::collections::HashSet", "std::collections::BTreeSet"):
            return mk("emptyset")
        if p == "std::collections::BinaryHeap":
            return mk("emptyheap")
        if p.endswith("Sha256") or "CoreWrapper" in p:
            return mk("sha", EMPTY)
    return mk("zst", eng.P.tstr(t))


@model("std::default::Default::default")
def m_default(eng, st, c):
    return ret(st, default_of(eng, st, c.dt))


def ty_is_int(eng, t):
    if t is None:
        return False
    return eng.int_type(t) is not None


def conv(eng, st, v, ft, tt, c):
    """infallible From/Into"""
    v = W(eng, st, v)
    if ft is not None and tt is not None and eng.peel(ft) == eng.peel(tt):
        return v
    td = eng.ty(eng.peel(tt)) if tt is not None else None
    fd = eng.ty(eng.peel(ft)) if ft is not None else None
    if fd is not None and fd["k"] == "bool" and td and td["k"] in ("uint", "int"):
        if v.k == "bool":
            return integer(1 if v.a[0] else 0)
        r = mk("b2i", v)
        RANGE.setdefault(r, (0, 1))
        return r
    if td is not None and td["k"] == "adt":
        p = td["path"]
        if p == OPTION and not (fd and fd["k"] == "adt" and fd["path"] == OPTION):
            return some(v)
        if p == "primitive_types::U256" and fd is not None:
            if fd["k"] in ("uint",) or fd["k"] == "int" and st.prove(v):
                return v
            if fd["k"] == "array" or fd["k"] == "slice":
                return mk("frombe", v) if not (v.k == "be" and v.a[0] == 32) else v.a[1]
        if p.startswith("error_stack::Report"):
            return mk("report", v, ERRV)
        if p in ("std::vec::Vec", "sled::IVec", "std::string::String", "std::boxed::Box", "std::sync::Arc",
                 "std::path::PathBuf", "std::ffi::OsString", "num_bigint::BigUint") or \
                p.startswith("sha2::digest::generic_array"):
            return v
        if "sled" in p and "Error" in p:
            return v
    if td is not None and td["k"] == "array" and fd is not None and fd["k"] == "adt" and fd["path"] == "primitive_types::U256":
        from .mnum import be
        return be(32, v)
    if td is not None and td["k"] in ("uint", "int", "array", "slice", "str"):
        return v
    return mk("call", "from:" + (eng.P.tstr(tt) if tt is not None else "?"), v)


@model("std::convert::Into::into")
def m_into(eng, st, c):
    if c.argts and c.argts[0] is not None:
        d = eng.ty(c.argts[0])
        if c.args[0].k == "ref" and d["k"] == "ref" and d.get("mut"):
            return ret(st, c.args[0])
    return ret(st, conv(eng, st, c.args[0], c.argts[0], c.dt, c))


MODELS["std::convert::From::from"] = m_into


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_tryinto(eng, st, c):
    v = W(eng, st, c.args[0])
    tt = targ(eng, c.dt, 0)
    if tt is None:
        return ret(st, mk("call", c.path, v))
    d = eng.ty(eng.peel(tt))
    if d["k"] == "array":
        n = d["len"].get("const")
        if isinstance(n, int):
            r = []
            for s, b in fork(eng, st, ieq(st.norm(length(v)), integer(n))):
                if b:
                    w = v
                    if w.k not in ("arr", "bytes", "seq", "slice", "be", "hash"):
                        ALEN.setdefault(w, n) if False else None
                    r.append(("ret", s, ok(fixlen(s, w, n))))
                else:
                    r.append(("ret", s, err(mk("convfail", v))))
            return r
    rg = eng.int_type(tt)
    if rg is not None and is_int(v):
        cond = conj(nn(sub(v, integer(rg[0]))), nn(sub(integer(rg[1]), v)))
        return [("ret", s, ok(v) if b else err(mk("convfail", v))) for s, b in fork(eng, st, cond)]
    return ret(st, mk("call", c.path + ":" + eng.P.tstr(tt), v))


def fixlen(st, v, n):
    """v is known to have n elements: view it as exactly that"""
    if length(v).k == "int":
        return v
    return mk("slice", v, integer(0), integer(n)) if v.k != "slice" else mk("slice", v.a[0], v.a[1], integer(n))


# ------------------------------------------------------------------ comparisons
def cmpval(eng, st, a, b):
    return W(eng, st, a), W(eng, st, b)


def norm_eq(st, a, b):
    return eq(a, b)


@model("std::cmp::PartialEq::eq")
def m_eq(eng, st, c):
    a, b = cmpval(eng, st, *c.args)
    return ret(st, eq(a, b))


@model("std::cmp::PartialEq::ne")
def m_ne(eng, st, c):
    a, b = cmpval(eng, st, *c.args)
    return ret(st, neg(eq(a, b)))


def order(st, a, b, op):
    if is_int(a) or is_int(b):
        return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[op]
    f = mk("cmp", a, b)
    return {"lt": mk("isord", f, 0), "gt": mk("isord", f, 2),
            "le": neg(mk("isord", f, 2)), "ge": neg(mk("isord", f, 0))}[op]


for _op in ("lt", "le", "gt", "ge"):
    def _f(eng, st, c, _op=_op):
        a, b = cmpval(eng, st, *c.args)
        if parts(a, b) is None:
            return ret(st, order(st, a, b, _op))
        r = []
        for s0, v in ordering(eng, st, a, b):
            for i in (0, 1, 2):
                s = s0.copy()
                if s.assume_var(v, i):
                    r.append(("ret", s, boolv({"lt": i == 0, "le": i != 2, "gt": i == 2, "ge": i != 0}[_op])))
        return r
    MODELS["std::cmp::PartialOrd::" + _op] = _f


def parts(a, b):
    """the components of two values that are compared one after the other"""
    if a.k == "tup" and b.k == "tup" and len(a.a) == len(b.a):
        return list(zip(a.a, b.a))
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] == "std::cmp::Reverse":
        return [(b.a[2][0], a.a[2][0])]
    return None


def ordering(eng, st, a, b):
    """[(state, ordering)] of comparing two values"""
    a, b = cmpval(eng, st, a, b)
    ps = parts(a, b)
    if ps is None:
        if a.k == "int" and b.k == "int":
            return [(st, LESS if a.a[0] < b.a[0] else GREATER if a.a[0] > b.a[0] else EQUAL)]
        return [(st, mk("cmp", a, b))]
    out, cur = [], [st]
    for n, (x, y) in enumerate(ps):
        nxt = []
        for s0 in cur:
            for s, v in ordering(eng, s0, x, y):
                if n == len(ps) - 1:
                    out.append((s, v))
                    continue
                for i in (0, 1, 2):
                    t = s.copy()
                    if t.assume_var(v, i):
                        if i == 1:
                            nxt.append(t)
                        else:
                            out.append((t, adt(ORDERING, i)))
        cur = nxt
    return out + ([(s, EQUAL) for s in cur] if not ps else [])


@model("std::cmp::Ord::cmp")
def m_cmp(eng, st, c):
    return [("ret", s, v) for s, v in ordering(eng, st, *c.args)]


@model("std::cmp::PartialOrd::partial_cmp")
def m_pcmp(eng, st, c):
    return [("ret", s, some(v)) for s, v in ordering(eng, st, *c.args)]


ORD = "std::cmp::Ordering::"


@model(ORD + "is_eq", ORD + "is_ne", ORD + "is_lt", ORD + "is_gt", ORD + "is_le", ORD + "is_ge")
def m_isord(eng, st, c):
    v = W(eng, st, c.args[0])
    op = c.path.rsplit("_", 1)[1]
    r = []
    for i in (0, 1, 2):
        s = st.copy()
        if s.assume_var(v, i):
            r.append(("ret", s, boolv({"eq": i == 1, "ne": i != 1, "lt": i == 0, "gt": i == 2,
                                       "le": i != 2, "ge": i != 0}[op])))
    return r


@model(ORD + "reverse")
def m_ordrev(eng, st, c):
    v = W(eng, st, c.args[0])
    if v.k == "adt":
        return ret(st, adt(ORDERING, 2 - v.a[1]))
    if v.k == "cmp":
        return ret(st, mk("cmp", v.a[1], v.a[0]))
    return ret(st, mk("revord", v))


@model(ORD + "then_with", ORD + "then")
def m_ordthen(eng, st, c):
    v = W(eng, st, c.args[0])
    r = []
    for i in (0, 1, 2):
        s = st.copy()
        if s.assume_var(v, i):
            if i == 1:
                r.extend(callv(eng, s, c.args[1], [], c) if c.path.endswith("with") else ret(s, c.args[1]))
            else:
                r.append(("ret", s, adt(ORDERING, i)))
    return r


@model("std::cmp::min", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::Ord::max")
def m_minmax(eng, st, c):
    a, b = cmpval(eng, st, *c.args)
    mn = c.path.endswith("min")
    return [("ret", s, (a if x else b) if mn else (b if x else a)) for s, x in fork(eng, st, order(st, a, b, "le"))]


@model("std::cmp::Ord::clamp")
def m_clamp(eng, st, c):
    v, lo, hi = [W(eng, st, a) for a in c.args]
    r = []
    for s, x in fork(eng, st, order(st, v, lo, "lt")):
        if x:
            r.append(("ret", s, lo))
        else:
            for s2, y in fork(eng, s, order(s, hi, v, "lt")):
                r.append(("ret", s2, hi if y else v))
    return r


# ------------------------------------------------------------------ bool
@model("core::bool::then")
def m_then(eng, st, c):
    r = []
    for s, b in fork(eng, st, W(eng, st, c.args[0])):
        if b:
            r.extend(then(callv(eng, s, c.args[1], [], c), lambda s2, v: ret(s2, some(v))))
        else:
            r.append(("ret", s, NONE))
    return r


@model("core::bool::then_some")
def m_thensome(eng, st, c):
    return [("ret", s, some(c.args[1]) if b else NONE) for s, b in fork(eng, st, W(eng, st, c.args[0]))]


@model("std::ops::Not::not")
def m_not(eng, st, c):
    v = W(eng, st, c.args[0])
    d = eng.ty(eng.peel(c.argts[0])) if c.argts[0] is not None else {"k": "?"}
    if d["k"] == "bool":
        return ret(st, neg(v))
    rg = eng.int_type(c.argts[0]) if c.argts[0] is not None else None
    if rg and rg[0] == 0:
        return ret(st, sub(integer(rg[1]), v))
    return ret(st, mk("call", "not", v))


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_callfn(eng, st, c):
    a = c.args[1] if len(c.args) > 1 else UNIT
    args = list(a.a) if a.k == "tup" else [a]
    return callv(eng, st, c.args[0], args, c)
