"""C03, C04, C19, C28, C29 and the integer helper part of C05."""
from contextlib import contextmanager
import copy
from .base import *
from . import mnum

DUMP, LOAD, SIZE = "tools::dump_u256", "tools::load_u256", "tools::u256_size"
MT = "merkletree::MerkleTree::"


def run_shape(cx, path, args=None, setup=None, prims=None, panics=True, limit=60):
    cx.need(path)
    e = Eng(cx.P, prims or {}, max_steps=600000)
    e.keep_panics = panics
    e.concrete_shapes = True
    e.deadline = min(cx.t_end, time.time() + limit)
    try:
        outs = run_fn(e, path, args=args, setup=setup)
    except Exception as x:
        cx.undecided(path, path, "not analysed: %s: %s" % (type(x).__name__, str(x)[:80]))
        raise Undecided(path)
    cx.visited |= e.visited
    cx.callsites |= e.callsites
    cx.loops |= set(e.loops)
    cx.notes |= e.notes
    cx.paths += len(outs)
    cx.runs.append(path)
    return outs


# ------------------------------------------------------------------ value classes
def u256_class(n, bits=None):
    """all numbers with exactly n significant bytes (of which the highest has that many bits)"""
    bs = []
    for i in range(32):
        if i >= n:
            bs.append(integer(0))
            continue
        b = mk("sym", "byte%d_of_%d%s" % (i, n, "_%d" % bits if bits and i == n - 1 else ""))
        RANGE[b] = (0, 255) if i < n - 1 else (1, 255) if bits is None else (1 << (bits - 1), (1 << bits) - 1)
        bs.append(b)
    v = mk("u256c", tuple(bs))
    RANGE[v] = (RANGE[b][0] << (8 * (n - 1)), ((RANGE[b][1] + 1) << (8 * (n - 1))) - 1) if n else (0, 0)
    return v


def be_bytes(v, n=32):
    """big-endian bytes without leading zeros of a number built from known bytes"""
    if v.k == "int":
        b = v.a[0].to_bytes(n, "big").lstrip(b"\0")
        return tuple(integer(x) for x in b)
    if v.k == "u256c":
        return strip0(tuple(reversed(v.a[0])))
    if v.k == "frombe":
        it = items_of(v.a[0])
        return strip0(it) if it is not None else None
    if v.k == "ofl":
        it = items_of(v.a[0])
        if it is None:
            return None
        out = ()
        for l in it:
            if l.k == "limb":
                out = tuple(reversed(l.a[0])) + out
            elif l.k == "int":
                out = tuple(integer(x) for x in l.a[0].to_bytes(8, "big")) + out
            else:
                return None
        return strip0(out)
    return None


def items_of(v):
    it = arr_items(v)
    if it is not None:
        return tuple(it)
    out = []
    for s in as_segs(v):
        if s.k == "b":
            out.append(s.a[0])
        elif s.k == "cat":
            n = length(s.a[0])
            if n.k != "int":
                return None
            out.extend(elem(s.a[0], integer(i)) for i in range(n.a[0]))
        else:
            return None
    return tuple(out)


def strip0(t):
    i = 0
    while i < len(t) and t[i].k == "int" and t[i].a[0] == 0:
        i += 1
    return t[i:]


def dump_classes(cx, key, only=None):
    """the bytes dump_u256 appends for each of the 33 classes; yields (n, x, state, bytes)"""
    P = cx.P
    at = fn_where(P, DUMP)
    cell = ("param", "buf")
    before = mk("sym", "already_there")
    pre = mk("seq", (mk("cat", before),))
    RANGE[mk("len", before)] = (0, LENMAX)

    def setup(st, vals):
        st.cells[cell] = pre

    def run(x):
        return run_shape(cx, DUMP, {0: x, 1: mk("ref", cell, ())}, setup)

    def plain(o):
        segs = list(as_segs(o[1].cells[cell])) if is_ok(o) else [pre.a[0][0]]
        return segs and segs[0] is pre.a[0][0] and items_of(seq(tuple(segs[1:]))) is not None

    def cases(n):
        """the class, or where the number of bits matters its parts by the bits of the first byte"""
        x = u256_class(n)
        outs = run(x)
        if n and not all(plain(o) for o in outs):
            for b in range(1, 9):
                y = u256_class(n, b)
                for o in run(y):
                    yield y, o
            return
        for o in outs:
            yield x, o
    for n in range(33):
        for x, o in cases(n):
            if o[0] == "panic":
                cx.violated("%s|panic|%s" % (key, o[2][0]), at, "encoding a number of %d bytes can panic: %s" % (n, o[2][0]), o[1])
                continue
            if not is_ok(o):
                cx.check(False, key + "|fails", at, "encoding a number of %d bytes fails" % n, o[1], (o[2],))
                continue
            got = o[1].cells[cell]
            segs = list(as_segs(got))
            if not segs or segs[0] is not pre.a[0][0]:
                cx.check(False, key + "|prefix", at, "bytes already in the buffer are changed: %s" % show(got, 4), o[1], (got,))
                continue
            it = items_of(seq(tuple(segs[1:])))
            if it is None:
                cx.check(False, key + "|bytes", at, "%d-byte numbers are encoded as %s" % (n, show(got, 4)), o[1], (got, mk("unk", "x", 0)))
                continue
            yield n, x, o[1], it


@rule("C04")
def c04(cx):
    """dump and load of integers, for each of the 33 byte widths with unknown bytes: the output is the width and the
    big-endian bytes without a leading zero; load of that term is the number and its width; the big-integer pair
    likewise"""
    P = cx.P
    cx.need(DUMP)
    lp = cx.need(LOAD)
    at = fn_where(P, DUMP)
    for n, x, st, it in dump_classes(cx, "C04|dump"):
        want = (integer(n),) + be_bytes(x)
        good = len(it) == len(want) and all(same(st, a, b) for a, b in zip(it, want))
        cx.check(good, "C04|dump|form", at, "a number of %d bytes is encoded as [%s], not as its length followed by its "
                 "big-endian bytes" % (n, ", ".join(show(i, 3) for i in it[:6])), st, it)
        # decoding what was encoded, with anything after it
        tail = mk("sym", "anything")
        RANGE[mk("len", tail)] = (0, LENMAX)
        data = seq(tuple(mk("b", i) for i in it) + (mk("cat", tail),))
        for o in run_shape(cx, lp, {0: data}):
            w = fn_where(P, lp)
            if o[0] == "panic":
                cx.violated("C04|load|panic|" + o[2][0], w, "decoding an encoded number can panic: %s" % o[2][0], o[1])
            elif not is_ok(o):
                cx.check(False, "C04|load|rejects", w, "decoding rejects the encoding of a number of %d bytes" % n, o[1], (o[2],))
            else:
                r = okval(o)
                v, c = r.a[0], r.a[1]
                bb = be_bytes(v)
                wb = be_bytes(x)
                good = bb is not None and len(bb) == len(wb) and all(same(o[1], a, b) for a, b in zip(bb, wb))
                cx.check(good, "C04|roundtrip", w, "a number of %d bytes is read back as %s" % (n, show(v, 5)), o[1], (v,))
                cx.check(same(o[1], c, integer(n)), "C04|consumed", w, "a number of %d bytes reports %s consumed value bytes"
                         % (n, show(c, 4)), o[1], (c,))
    if cx.has(BIGDUMP):
        big_pair(cx)
    # any input
    d = mk("sym", "data")
    RANGE[mk("len", d)] = (0, LENMAX)
    for o in run_shape(cx, lp, {0: d}):
        if is_ok(o):
            w = fn_where(P, lp)
            v, c = okval(o).a
            cx.check(same(o[1], c, elem(d, integer(0))), "C04|any|count", w,
                     "reports %s consumed value bytes" % show(c, 4), o[1], (c,))
            want = mnum.frombe(slice_(d, integer(1), elem(d, integer(0))), 32)
            cx.check(same(o[1], v, want), "C04|any|value", w, "reads %s" % show(v, 5), o[1], (v,))


BIGDUMP, BIGLOAD, BIGSIZE = "tools::dump_biguint", "tools::load_biguint", "tools::bigint_size"
BIGWIDTHS = tuple(range(0, 20)) + (31, 32, 33, 64, 127, 128, 129, 253, 254, 255, 256, 257, 300, 512, 513)


def big_class(n, bits=None):
    """all natural numbers with exactly n significant bytes (of which the highest has that many bits)"""
    bs = []
    for i in range(n):
        b = mk("sym", "bigbyte%d_of_%d_%s" % (i, n, bits if i == n - 1 else ""))
        RANGE[b] = (0, 255) if i < n - 1 else (1, 255) if bits is None else (1 << (bits - 1), (1 << bits) - 1)
        bs.append(b)
    v = mk("biguintc", tuple(bs))
    if n == 0:
        RANGE[v] = (0, 0)
    else:
        l, h = RANGE[bs[-1]]
        RANGE[v] = (l << (8 * (n - 1)), ((h + 1) << (8 * (n - 1))) - 1)
    return v, tuple(bs)


def big_dumps(cx, key, widths):
    """(n, value, bytes low first, state, dumped items|None) of encoding big integers of n bytes"""
    at = fn_where(cx.P, cx.need(BIGDUMP))
    for n in widths:
        v, bs = big_class(n)
        cell = ("param", "buf")
        before = mk("sym", "already_there")
        pre = mk("seq", (mk("cat", before),))
        RANGE[mk("len", before)] = (0, LENMAX)

        def setup(st, vals):
            st.cells[cell] = pre
        for o in run_shape(cx, BIGDUMP, {0: v, 1: mk("ref", cell, ())}, setup):
            if o[0] == "panic":
                cx.violated("%s|panic|%s" % (key, o[2][0]), at, "encoding a big integer of %d bytes can panic: %s" % (n, o[2][0]), o[1])
                continue
            if not is_ok(o):
                yield n, v, bs, o[1], None
                continue
            got = o[1].cells[cell]
            segs = list(as_segs(got))
            it = items_of(seq(tuple(segs[1:]))) if segs and segs[0] is pre.a[0][0] else None
            if it is None:
                cx.check(False, key + "|bytes", at, "big integers of %d bytes are encoded as %s" % (n, show(got, 4)), o[1],
                         (got, mk("unk", "x", 0)))
                continue
            yield n, v, bs, o[1], it


def big_pair(cx):
    """the same for integers of up to 255 bytes"""
    P = cx.P
    at, w = fn_where(P, BIGDUMP), fn_where(P, cx.need(BIGLOAD))
    for n, v, bs, st, it in big_dumps(cx, "C04|big|dump", BIGWIDTHS):
        if it is None:
            cx.check(n > 255, "C04|big|refused", at, "a big integer of %d bytes is refused" % n, st)
            continue
        want = tuple(reversed(bs)) if bs else (integer(0),)
        cx.check(n <= 255 and len(it) == 1 + len(want) and same(st, it[0], integer(len(want)))
                 and all(same(st, a, b) for a, b in zip(it[1:], want)), "C04|big|form", at,
                 "a big integer of %d bytes is encoded as [%s], not as its length in one byte followed by its big-endian bytes"
                 % (n, ", ".join(show(i, 3) for i in it[:6])), st, it)
        if n > 255:
            continue
        tail = mk("sym", "anything")
        RANGE[mk("len", tail)] = (0, LENMAX)
        for o in run_shape(cx, BIGLOAD, {0: seq(tuple(mk("b", i) for i in it) + (mk("cat", tail),))}):
            if o[0] == "panic":
                cx.violated("C04|big|load|panic|" + o[2][0], w, "decoding an encoded big integer can panic: %s" % o[2][0], o[1])
            elif not is_ok(o):
                cx.check(False, "C04|big|load|rejects", w, "decoding rejects the encoding of a big integer of %d bytes" % n, o[1], (o[2],))
            else:
                r, c = okval(o).a
                bb = items_of(r.a[0]) if r.k == "frombe" else be_bytes(r, 256) if r.k == "int" else None
                good = bb is not None and strip0(bb) == strip0(want)
                cx.check(good, "C04|big|roundtrip", w, "a big integer of %d bytes is read back as %s" % (n, show(r, 4)), o[1], (r,))
                cx.check(same(o[1], c, integer(len(it))), "C04|big|consumed", w, "a big integer of %d bytes reports %s consumed bytes"
                         % (n, show(c, 4)), o[1], (c,))


def big_size(cx):
    """the size function of big integers equals what is written"""
    at = fn_where(cx.P, cx.need(BIGSIZE))
    for n in range(256):
        for b in range(1, 9) if n else (0,):
            v, bs = big_class(n, b if n else None)
            for o in run_shape(cx, BIGSIZE, {0: v}):
                if o[0] == "panic":
                    cx.violated("C05|bigint_size|panic", at, "the size of a big integer of %d bytes panics: %s" % (n, o[2][0]), o[1])
                    continue
                got = o[1].norm(o[2])
                cx.check(got.k == "int" and got.a[0] == 1 + max(n, 1), "C05|bigint_size", at, "the reported size of a big integer of %d "
                         "bytes is %s, %d bytes are written" % (n, show(got, 4), 1 + max(n, 1)), o[1], (got,) if got.k == "int" else (mk("unk", "x", 0),))


def size_matches_dump(cx):
    """the size function of the integer helper equals what the helper writes"""
    P = cx.P
    if cx.has(BIGSIZE):
        big_size(cx)
    sp = cx.need(SIZE)
    at = fn_where(P, sp)
    lens = {}
    for n, x, st, it in dump_classes(cx, "C05|dump_u256"):
        lens.setdefault(n, set()).add(len(it))
    for bits in range(257):
        n = (bits + 7) // 8
        x = integer(0) if bits == 0 else mk("sym", "number_of_%d_bits" % bits)
        if bits:
            RANGE[x] = (1 << (bits - 1), (1 << bits) - 1)
        for o in run_shape(cx, sp, {0: x}):
            if o[0] == "panic":
                cx.violated("C05|u256_size|panic", at, "the size of a number of %d bits panics: %s" % (bits, o[2][0]), o[1])
                continue
            got = o[1].norm(o[2])
            if n not in lens:
                cx.undecided("C05|u256_size", at, "what is written for a number of %d bits is not determined" % bits)
                continue
            good = got.k == "int" and lens[n] == {got.a[0]}
            if not good and got.k != "int":
                # as a class of bytes
                y = u256_class(n)
                vals = {o2[1].norm(o2[2]) for o2 in run_shape(cx, sp, {0: y}) if o2[0] == "ret"}
                good = all(v.k == "int" and lens.get(n) == {v.a[0]} for v in vals)
                if not good and any(v.k != "int" for v in vals):
                    cx.undecided("C05|u256_size", at, "size of numbers of %d bits not determined" % bits)
                    continue
            cx.check(good, "C05|u256_size", at, "the reported size of a number of %d bits is %s, %s bytes are written"
                     % (bits, show(got, 4), sorted(lens.get(n, []))), o[1], (got,))


# ------------------------------------------------------------------ decoding never panics
DECODERS = [TXT + "parse", "block::BasicInfo::parse", "block::TransactionBlock::parse", "block::SummarizeBlock::parse",
            "block::DerivativeBlock::parse", "block::deserialize_main_chain_block", LOAD, "tools::load_biguint",
            "dump_headers::Headers::from_u8"]
# summaries that do not hide any failure of the decoders
NOFAIL = {"tools::dump_u256": STD["tools::dump_u256"], "tools::u256_size": STD["tools::u256_size"]}


def unchecked_msg(m):
    return m.startswith(("unchecked", "transmute"))


@rule("C03")
def c03(cx):
    """every path of every decoder for an input of unknown length and bytes: no path panics, every slice and unchecked
    access is inside the input by the facts of the path, allocations are bounded by the input length"""
    P = cx.P
    # decoding an integer may be replaced by its summary once its own body was shown to stop short of the end
    summ = True
    for o in cx.run(cx.need(LOAD), prims=NOFAIL, panics=True):
        if o[0] == "panic":
            continue
        if is_ok(o):
            d = mk("sym", first_name(P, LOAD))
            t = okval(o)
            summ = summ and t.k == "tup" and o[1].prove(sub(mk("len", d), add(t.a[1], integer(1))))
        elif not is_err(o):
            summ = False
    inner = dict(NOFAIL)
    if summ:
        inner[LOAD] = STD[LOAD]
    for p in DECODERS:
        outs = cx.run(cx.need(p), prims=NOFAIL if p == LOAD else inner, panics=True)
        n = 0
        for o in outs:
            if o[0] == "panic":
                cx.violated("C03|%s|%s|%s" % (p, o[2][1], o[2][0]), "%s (%s)" % (o[2][2], o[2][1]),
                         "%s can stop with '%s' on some input" % (p, o[2][0]), o[1])
            else:
                n += 1
                cx.check(o[2].k == "adt" and o[2].a[0] == RESULT or o[2].k in ("vf", "call"), "C03|%s|result" % p, fn_where(P, p),
                         "neither a value nor an error: %s" % show(o[2], 3), o[1], (o[2],))
                bounded_alloc(cx, p, o)
        cx.check(n > 0, "C03|%s|none" % p, fn_where(P, p), "never returns")


def bounded_alloc(cx, p, o):
    d = mk("sym", first_name(cx.P, p))
    ln = mk("len", d)
    for e in walk_events(o[1].events()):
        if e[0] == "alloc" and is_int(e[1]) and d in subterms(e[1]):
            lim = add(scale(ln, 64), integer(1 << 16))
            cx.check(o[1].prove(sub(lim, e[1])), "C03|%s|alloc" % p, where(e),
                     "memory of %s bytes is reserved whatever the size of the input" % show(e[1], 4), o[1], (e[1],))


def walk_events(evs):
    for e in evs:
        yield e
        if e[0] == "loop":
            for bt in e[2]:
                yield from walk_events(bt)


def first_name(P, path):
    return P.bodies[path]["locals"][1].get("name") or "arg0"


# ------------------------------------------------------------------ difficulty adjustment
RECALC = "tools::recalculate_difficulty"
TIMINGS = ("backwards", "faster", "on target", "slower")


def difficulty_classes():
    """every difficulty value, split by its leading zero bits"""
    rest = []
    for i in range(32):
        b = mk("sym", "d%d" % i)
        RANGE[b] = (0, 255)
        rest.append(b)
    for j in range(32):
        for b in range(1, 9):
            x = mk("sym", "first%d_%d" % (j, b))
            RANGE[x] = (1 << (b - 1), (1 << b) - 1)
            yield 8 * j + 8 - b, tuple([integer(0)] * j + [x] + rest[j + 1:])
    yield 256, tuple([integer(0)] * 32)


def byte_bounds(st, x):
    x = st.norm(x)
    if x.k == "int":
        return x.a[0], x.a[0]
    lo, hi = 0, 255
    r = lin_range(x)
    if r[0] is not None:
        lo = max(lo, r[0])
    if r[1] is not None:
        hi = min(hi, r[1])
    for b in range(8):
        if lo < (1 << b) <= hi and st.prove(sub(x, integer(1 << b))):
            lo = max(lo, 1 << b)
    for b in range(7, -1, -1):
        if hi >= (1 << b) > lo and st.prove(sub(integer((1 << b) - 1), x)):
            hi = min(hi, (1 << b) - 1)
    return lo, hi


def clz_bounds(st, items):
    """least and greatest number of leading zero bits"""
    lo, hi = 0, 0
    lo_open = hi_open = True
    for x in items:
        l, h = byte_bounds(st, x)
        if lo_open:
            lo += 8 - h.bit_length()
            lo_open = h == 0
        if hi_open:
            hi += 8 - l.bit_length()
            hi_open = l == 0
        if not lo_open and not hi_open:
            break
    return lo, hi


@rule("C19")
def c19(cx):
    """for each of the 257 classes of difficulties (position and shape of the leading byte) and each order of the
    timestamps, the resulting 32 byte terms: no path panics or wraps, a fast block raises the requirement (while there is
    a bit left), a slow block lowers it by exactly one leading zero bit (by at most one if it has no more than one), and the
    exact interval changes nothing"""
    P = cx.P
    cx.need(RECALC)
    at = fn_where(P, RECALC)
    t0, t1 = mk("sym", "t0"), mk("sym", "t1")
    RANGE[t0] = RANGE[t1] = (0, (1 << 64) - 1)
    target = static_int(cx, "static_values::TIME_PER_BLOCK")
    cell = ("param", "difficulty")
    for z, bs in difficulty_classes():
        for tm in TIMINGS:
            if c19_class(cx, at, target, t0, t1, z, bs, tm, False):
                continue
            # the corners of the class, where every byte is known
            for rest in (0, 255):
                for first in (0, 1):
                    c19_class(cx, at, target, t0, t1, z, tuple(
                        b if b.k == "int" else integer(rest) if b.a[0].startswith("d") else integer(RANGE[b][first]) for b in bs), tm, True)
            if any(o[0] == "bad" for o in cx.obs):
                continue
            # not decided for the class as a whole: decide it for every value of its first non-zero byte
            j = z // 8
            if z == 256:
                c19_class(cx, at, target, t0, t1, z, bs, tm, True)
            else:
                for x in range(1 << (7 - z % 8), 1 << (8 - z % 8)):
                    c19_class(cx, at, target, t0, t1, z, bs[:j] + (integer(x),) + bs[j + 1:], tm, True)


def c19_class(cx, at, target, t0, t1, z, bs, tm, final):
    """False when the class has to be split"""
    P = cx.P
    old = mk("arr", bs)
    cell = ("param", "difficulty")

    def setup(st, vals):
        st.cells[cell] = old
        d = sub(t1, t0)
        if tm == "backwards":
            st.assume(lt(t1, t0), True)
        else:
            st.assume(le(t0, t1), True)
            if tm == "faster":
                st.assume(lt(d, target), True)
            elif tm == "slower":
                st.assume(lt(target, d), True)
            else:
                st.assume(ieq(d, target), True)
    todo = []
    for o in run_shape(cx, RECALC, {0: t0, 1: t1, 2: mk("ref", cell, ())}, setup):
        if o[0] == "panic":
            todo.append((cx.violated, ("C19|panic|" + o[2][0], at, "a block found %s with %d leading zero bits of difficulty: %s"
                                       % (tm, z, o[2][0]), o[1])))
            continue
        new = o[1].cells[cell]
        it = items_of(new)
        if it is None or len(it) != 32:
            if not final:
                return False
            todo.append((cx.undecided, ("C19|value", at, "new difficulty is %s" % show(new, 4))))
            continue
        lo, hi = clz_bounds(o[1], it)
        if tm == "on target":
            todo.append((cx.check, (all(same(o[1], a, b) for a, b in zip(it, bs)), "C19|on target", at,
                                    "the difficulty changes although the block was on target", o[1], it)))
            continue
        if tm == "slower":
            top = z - 1 if z > 1 else z             # never below one bit, but otherwise it has to give way
            good, wrong = max(z - 1, 0) <= lo and hi <= top, lo > top or hi < z - 1
            text = "a slower block changes the difficulty from %d to %d leading zero bits" % (z, lo if lo > top else hi)
        else:
            least = min(z + 1, 256)
            good, wrong = lo >= least, hi < least
            text = "a block found %s changes the difficulty from %d to %d leading zero bits" % (tm, z, hi)
        key = "C19|slower" if tm == "slower" else "C19|faster"
        if good or wrong:
            # the bounds hold whatever the bytes are
            todo.append((cx.check, (good, key, at, text, o[1])))
        elif final:
            todo.append((cx.undecided, (key, at, "leading zero bits from %d to %d..%d" % (z, lo, hi))))
        else:
            return False
    for f, a in todo:
        f(*a)
    return True


def static_int(cx, name):
    """value of an integer static"""
    s = cx.P.statics.get(name)
    if s is None or not s.get("bytes"):
        raise Missing(name)
    return integer(int.from_bytes(bytes(s["bytes"]), "little"))


# ------------------------------------------------------------------ unchecked operations
UNCHECKED_FNS = ("unwrap_unchecked", "get_unchecked", "get_unchecked_mut", "from_utf8_unchecked", "unwrap_err_unchecked",
                 "unreachable_unchecked")


def call_target(t):
    f = t.get("f") or {}
    c = f.get("const") or {}
    fn = c.get("fn") or {}
    return fn.get("path") or ""


def own_path(p):
    return p.split("::{closure")[0]


def unchecked_sites(P):
    """function -> number of unchecked operations in its body (closures count for their parent)"""
    out = {}
    for p, b in P.bodies.items():
        for q in [b] + b.get("promoted", []):
            for bb in q["blocks"]:
                if bb["cleanup"]:
                    continue
                t = bb["t"]
                if t["k"] == "call" and call_target(t).split("::")[-1] in UNCHECKED_FNS:
                    out[own_path(p)] = out.get(own_path(p), 0) + 1
                for s in bb["s"]:
                    if s["s"] == "=" and s["v"].get("r") == "cast" and "Transmute" in str(s["v"].get("kind")):
                        out[own_path(p)] = out.get(own_path(p), 0) + 1
    return out


def callers_of(P):
    out = {}
    for p, b in P.bodies.items():
        for q in [b] + b.get("promoted", []):
            for bb in q["blocks"]:
                t = bb["t"]
                if t["k"] == "call":
                    out.setdefault(call_target(t), set()).add(own_path(p))
    return out


def entries_reaching(P, fns):
    """the public functions through which `fns` are reached"""
    callers = callers_of(P)
    out, seen, work = set(), set(), list(fns)
    while work:
        p = work.pop()
        if p in seen:
            continue
        seen.add(p)
        b = P.bodies.get(p)
        if b is None:
            continue
        if b.get("pub") or b.get("impl_trait"):
            out.add(p)
        else:
            work.extend(callers.get(p, ()))
    return out


SHAPED = (MT + "build_tree", MT + "get_proof", MT + "verify_proof", MT + "get_root", RECALC, DUMP)


@rule("C28")
def c28(cx):
    """every unchecked unwrap, unchecked index, unchecked UTF-8 and transmute of the crate is reached only on paths whose
    facts establish its requirement; functions over hash lists are analysed for every list length up to a bound"""
    P = cx.P
    sites = unchecked_sites(P)
    ent = entries_reaching(P, sites)
    cx.ok("C28|sites", "crate", "%d unchecked operations in %d functions, reached through %d public functions"
          % (sum(sites.values()), len(sites), len(ent)))
    for p in sorted(ent):
        if p in SHAPED:
            continue
        if len(P.bodies[p]["locals"]) > 400:
            continue
        pr = {k: v for k, v in STD.items() if k != p and k != "tools::load_u256" or k == LOAD and p != LOAD}
        for k in list(pr):
            if k in sites and not P.bodies[k].get("pub"):
                del pr[k]
        try:
            outs = cx.run(p, prims=pr, panics=True)
        except Undecided:
            continue
        unchecked_outcomes(cx, p, outs)
    shapes(cx)


def unchecked_outcomes(cx, p, outs, what=""):
    P = cx.P
    n = 0
    for o in outs:
        if o[0] == "panic" and unchecked_msg(o[2][0]):
            cx.violated("C28|%s|%s" % (o[2][1], o[2][0]), "%s (%s)" % (o[2][2], o[2][1]),
                        "%s reaches an unchecked operation whose requirement does not hold%s: %s" % (p, what, o[2][0]), o[1])
        else:
            n += sum(1 for e in walk_events(o[1].events()) if e[0] == "unchecked")
    cx.ok("C28|%s|reached" % p, fn_where(P, p), "%d unchecked operations on its paths meet their requirement" % n)


def leaves(n, tag="item"):
    out = []
    for i in range(n):
        v = mk("sym", "%s%d" % (tag, i))
        ALEN[v] = 32
        out.append(v)
    return out


def shapes(cx):
    P = cx.P
    room(cx, "C28|depth")
    top = 17 if cx.tier == "quick" else 40
    for n in list(range(top)) + corner_sizes(P, MT + "build_tree", top, 130, (33, 65)):
        for o in run_shape(cx, MT + "build_tree", {0: mk("arr", tuple(leaves(n)))}):
            unchecked_outcomes(cx, MT + "build_tree", [o], " for %d items" % n)
            if o[0] != "ret":
                continue
            st, tree = o[1], o[2]
            for m, args in (("get_root", ()), ("get_proof", (bsym("wanted", 32),))):
                if MT + m not in P.bodies:
                    continue
                if m == "get_proof" and n > 9 and cx.tier == "quick":
                    continue
                cell = ("param", "tree")

                def setup(s2, vals):
                    s2.cells[cell] = tree
                a = {0: mk("ref", cell, ())}
                for i, x in enumerate(args):
                    a[i + 1] = x
                try:
                    unchecked_outcomes(cx, MT + m, run_shape(cx, MT + m, a, setup), " for %d items" % n)
                except Undecided:
                    pass
    if MT + "verify_proof" in P.bodies:
        for m in list(range(6)) + corner_sizes(P, MT + "verify_proof", 6, 300, (9, 17, 33, 65, 129)):
            unchecked_outcomes(cx, MT + "verify_proof", run_verify(cx, m), " for a proof of %d hashes" % m)
    for n in range(33):
        for o in run_shape(cx, DUMP, {0: u256_class(n), 1: mk("ref", ("param", "buf"), ())},
                           lambda st, vals: st.cells.__setitem__(("param", "buf"), mk("seq", (mk("cat", mk("sym", "before")),)))):
            unchecked_outcomes(cx, DUMP, [o], " for %d bytes" % n)
    cell = ("param", "difficulty")
    for z, bs in difficulty_classes():
        outs = run_shape(cx, RECALC, {2: mk("ref", cell, ())}, lambda st, vals: st.cells.__setitem__(cell, mk("arr", bs)))
        unchecked_outcomes(cx, RECALC, outs, " for %d leading zero bits" % z)


def room(cx, key):
    """the power of two chosen for a list has room for all its items, for every class of lengths a slice can have"""
    fn = "merkletree::find_closest_power_of_2"
    if fn not in cx.P.bodies or not any(fn in cs for p, cs in calls_by(cx.P).items() if p.startswith(MT)):
        return
    at = fn_where(cx.P, fn)
    asked = []

    def p_asked(eng, st, c):
        asked.append((st.copy(), c.args[0]))
        return []
    items = sym("items")
    for o in cx.run(MT + "build_tree", args={0: items}, prims={fn: p_asked}):
        pass
    for st, n in asked:
        k = st.norm(sub(n, length(items)))
        if k.k == "int" and k.a[0] < 0:
            cx.undecided(key + "|asked", fn, "the depth is that of %s items" % show(n, 4))
            continue
        cx.check(same(st, n, length(items)) or st.prove(sub(n, length(items))), key + "|asked", fn_where(cx.P, MT + "build_tree"),
                 "the depth of the tree is that of %s items, not of all of them" % show(n, 4), st, (n,))
    for k in range(58):
        for lo, hi in ((1 << k, 1 << k), ((1 << k) + 1, (2 << k) - 1)):
            if lo > hi:
                continue
            n = integer(lo)
            if lo != hi:
                n = mk("sym", "amount2^%d" % k)
                RANGE[n] = (lo, hi)
            for o in run_shape(cx, fn, {0: n}):
                what = "%s%d items" % ("" if lo == hi else "up to ", hi)
                if o[0] == "panic":
                    cx.violated(key + "|panic", at, "the depth for %s: %s" % (what, o[2][0]), o[1])
                    continue
                v = o[1].norm(o[2])
                if v.k != "int" or o[1].unk:
                    cx.undecided(key, at, "the depth for %s is %s" % (what, show(v, 3)))
                    continue
                if not cx.check(v.a[0] < 64 and 1 << v.a[0] >= hi, key, at, "a tree of depth %d is built for %s" % (v.a[0], what), o[1]):
                    return


def calls_by(P):
    out = {}
    for c, ps in callers_of(P).items():
        for p in ps:
            out.setdefault(p, set()).add(c)
    return out


def run_verify(cx, m):
    h, r = bsym("leaf", 32), bsym("root", 32)
    return run_shape(cx, MT + "verify_proof", {0: h, 1: r, 2: mk("arr", tuple(leaves(m, "sibling")))})


# ------------------------------------------------------------------ merkle trees
PAD = 255


def items32(v):
    return [elem(v, integer(i)) for i in range(32)]


def is_pad(v):
    return all(x.k == "int" and x.a[0] == PAD for x in items32(v))


def base_of(x, i):
    """the 32-byte value whose byte i is x"""
    if x.k == "elem" and x.a[1].k == "int" and x.a[1].a[0] == i:
        return x.a[0]
    return None


class BadNode(Exception):
    pass


def node(v, known):
    """('pad',) | ('leaf', item) | ('hash', kind, left, right) of a 32-byte value"""
    if v in known:
        return ("leaf", v)
    if is_pad(v):
        return ("pad",)
    if all(x.k == "int" for x in items32(v)):
        return ("const", tuple(x.a[0] for x in items32(v)))
    if v.k != "hash":
        raise BadNode("a node holds %s" % show(v, 3))
    it = items_of(v.a[0])
    if it is None:
        n = length(v.a[0])
        if n.k == "int" and n.a[0] in (32, 64):
            it = [elem(v.a[0], integer(i)) for i in range(n.a[0])]
    if it is None or len(it) not in (32, 64):
        raise BadNode("an inner node hashes %s" % show(v.a[0], 3))
    if len(it) == 64:
        a, b = side(it[:32]), side(it[32:])
        return ("hash", "concat", node(a, known), node(b, known))
    pair = None
    for i, x in enumerate(it):
        if x.k == "int" and x.a[0] == PAD:
            p = (None, None)
        elif x.k == "band":
            p = tuple(base_of(y, i) for y in x.a[:2])
            if None in p:
                raise BadNode("byte %d of an inner node is %s" % (i, show(x, 3)))
        else:
            p = (base_of(x, i), None)
            if p[0] is None:
                raise BadNode("byte %d of an inner node is %s" % (i, show(x, 3)))
        p = tuple(sorted(p, key=lambda y: -1 if y is None else y.id))
        if pair is not None and p != pair:
            raise BadNode("the bytes of an inner node come from different children (byte %d)" % i)
        pair = p
    kids = [("pad",) if y is None else node(y, known) for y in pair]
    return ("hash", "and", kids[0], kids[1])


def side(it):
    if all(x.k == "int" and x.a[0] == PAD for x in it):
        return mk("bytes", (PAD,) * 32)
    b = base_of(it[0], 0)
    if b is None or any(base_of(x, i) is not b for i, x in enumerate(it)):
        raise BadNode("the bytes of an inner node come from different children")
    return b


def leaf_sets(t):
    """nested frozensets of the leaves, for comparing shapes whatever the order of children"""
    if t[0] == "hash":
        return ("n", frozenset_pair(leaf_sets(t[2]), leaf_sets(t[3])))
    return t


def frozenset_pair(a, b):
    if a == b:
        b = ("pad",)          # x & x = x & padding
    return tuple(sorted((a, b), key=lambda x: repr_key(x)))


def repr_key(x):
    if x[0] == "leaf":
        return "l%d" % x[1].id
    if x[0] == "pad":
        return "p"
    if x[0] == "const":
        return "c%s" % bytes(x[1]).hex()
    return "n(" + repr_key(x[1][0]) + "," + repr_key(x[1][1]) + ")"


def expected(items, depth):
    lv = [("leaf", x) for x in items] + [("pad",)] * ((1 << depth) - len(items))
    while len(lv) > 1:
        lv = [("n", frozenset_pair(lv[i], lv[i + 1])) for i in range(0, len(lv), 2)]
    return lv[0]


def height(t):
    return 0 if t[0] != "hash" else 1 + max(height(t[2]), height(t[3]))


def kinds(t):
    return set() if t[0] != "hash" else {t[1]} | kinds(t[2]) | kinds(t[3])


def collapse(t):
    """subtrees of padding keep their shape; only used for the message"""
    if t[0] == "hash":
        return "(%s %s)" % (collapse(t[2]), collapse(t[3]))
    return t[0] if t[0] in ("pad", "const") else show(t[1], 2)


def corner_sizes(P, fn, low, high, fixed=()):
    """sizes from `low` to `high` at which the code may start to behave differently: around powers of two and around the
    numbers that occur in it (and in what it calls)"""
    seen, todo, ints = set(), [fn], set()

    def visit(x):
        if isinstance(x, dict):
            c = x.get("const")
            if isinstance(c, dict):
                if isinstance(c.get("int"), int):
                    ints.add(c["int"])
                f = c.get("fn")
                if isinstance(f, dict):
                    todo.append(f.get("res") or f.get("path"))
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)
    while todo:
        f = todo.pop()
        if f in seen or f not in P.bodies:
            continue
        seen.add(f)
        visit(P.bodies[f]["blocks"])
        visit(P.bodies[f].get("promoted"))
        todo += [g for g in P.bodies if g.startswith(f + "::{closure")]
    return sorted(n for n in {c + d for c in ints for d in (0, 1, 2)} | set(fixed) if low <= n <= high)


@contextmanager
def scaled(cx, fn, const, to):
    """the program with a large constant of `fn` (and of what it calls) taken as `to`, or (const None) with its 16-bit casts
    taken as 8-bit ones: what is required of the function mentions neither, so it must hold for any such number"""
    P = cx.P
    saved = {}
    u16 = [i for i, t in enumerate(P.types) if t["k"] == "uint" and t.get("bits") == 16]
    u8 = [i for i, t in enumerate(P.types) if t["k"] == "uint" and t.get("bits") == 8][0]

    def visit(x):
        if isinstance(x, dict):
            c = x.get("const")
            if const is not None and isinstance(c, dict) and c.get("int") == const:
                c["int"] = to
            if const is None and x.get("r") == "cast" and x.get("kind") == "IntToInt" and x.get("t") in u16:
                x["t"] = u8
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)
    try:
        for f in reachable(P, fn):
            saved[f] = P.bodies[f]
            P.bodies[f] = copy.deepcopy(P.bodies[f])
            visit(P.bodies[f])
        yield
    finally:
        for f, b in saved.items():
            P.bodies[f] = b


def reachable(P, fn):
    seen, todo = set(), [fn]

    def visit(x):
        if isinstance(x, dict):
            c = x.get("const")
            if isinstance(c, dict) and isinstance(c.get("fn"), dict):
                todo.append(c["fn"].get("res") or c["fn"].get("path"))
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)
    while todo:
        f = todo.pop()
        if f in seen or dict.get(P.bodies, f) is None:
            continue
        seen.add(f)
        visit(P.bodies[f]["blocks"])
        visit(P.bodies[f].get("promoted"))
        todo += [g for g in list(P.bodies) if g.startswith(f + "::{closure")]
    return seen


def thresholds(P, fn):
    """large numbers a function mentions, as (constant, stand-in, sizes around it)"""
    ints, casts = set(), []

    def visit(x):
        if isinstance(x, dict):
            c = x.get("const")
            if isinstance(c, dict) and isinstance(c.get("int"), int):
                ints.add(c["int"])
            if x.get("r") == "cast" and x.get("kind") == "IntToInt" and P.types[x["t"]].get("bits") == 16:
                casts.append(x)
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)
    for f in reachable(P, fn):
        visit(P.bodies[f]["blocks"])
        visit(P.bodies[f].get("promoted"))
    return [(c, 5, (4, 5, 6, 7, 9)) for c in sorted(ints) if 300 < c < 1 << 40][:8] + ([(None, None, (129,))] if casts else [])


@rule("C29")
def c29(cx):
    """for every list length up to a bound, with symbolic items, the root term is a complete binary tree of hashes whose
    leaves are the items in order followed by padding; for every proof length up to a bound, accepting implies that all 32
    bytes of the fold of the leaf with every sibling equal the root"""
    P = cx.P
    bp, rp = cx.need(MT + "build_tree"), cx.need(MT + "get_root")
    vp = cx.need(MT + "verify_proof")
    at = fn_where(P, bp)
    kinds_seen = set()
    room(cx, "C29|depth")
    low = 18 if cx.tier == "quick" else 34
    def root_of(n, about=""):
        nonlocal kinds_seen
        sz = "%d items%s" % (n, about)
        items = leaves(n)
        for o in run_shape(cx, bp, {0: mk("arr", tuple(items))}):
            if o[0] == "panic":
                cx.violated("C29|build|panic|" + o[2][0], at, "building the tree of %s: %s" % (sz, o[2][0]), o[1])
                continue
            cell = ("param", "tree")
            tree = o[2]
            for o2 in run_shape(cx, rp, {0: mk("ref", cell, ())}, lambda st, vals: st.cells.__setitem__(cell, tree)):
                if o2[0] == "panic":
                    cx.violated("C29|root|panic|" + o2[2][0], fn_where(P, rp), "the root of %s: %s" % (sz, o2[2][0]), o2[1])
                    continue
                root = o2[2]
                if root.k == "ref":
                    root = o2[1].cells.get(root.a[0], root) if not root.a[1] else root
                if o[1].unk or vague(root):
                    cx.undecided("C29|root", at, "the root of %s is not determined" % sz)
                    continue
                try:
                    t = node(root, set(items))
                except BadNode as x:
                    cx.check(False, "C29|node", at, "for %s %s" % (sz, x), o2[1], (root,))
                    continue
                kinds_seen |= kinds(t)
                d = height(t)
                cx.check(leaf_sets(t) == expected(items, d), "C29|shape", at,
                         "the root of %s does not combine them pairwise in order with padding: %s" % (sz, collapse(t)[:400]))

    for n in list(range(low)) + corner_sizes(P, bp, low, 300, (31, 32, 33, 63, 64, 65, 129)):
        root_of(n)
    for const, to, sizes in thresholds(P, bp):
        with scaled(cx, bp, const, to):
            for n in sizes:
                root_of(n, " (taking %s for %d)" % (to, const) if const else " (taking 8 for 16 bits)")
    if "and" in kinds_seen:
        cx.bad("C29|lossy-and", at, "inner nodes hash the bitwise AND of their children, so different lists can have one root")
    wv = fn_where(P, vp)
    h, r = bsym("leaf", 32), bsym("root", 32)
    low = 6 if cx.tier == "quick" else 10
    for m in list(range(low)) + corner_sizes(P, vp, low, 300, (8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 129, 256, 257)):
        sib = leaves(m, "sibling")
        acc = False
        for o in run_verify(cx, m):
            if o[0] == "panic":
                cx.violated("C29|verify|panic|" + o[2][0], wv, "checking a proof of %d hashes: %s" % (m, o[2][0]), o[1])
                continue
            c = o[2]
            if c.k != "bool":
                # the answer is a comparison the engine kept whole
                whole = fold_ok(h, r, sib, c, True)
                if whole is None:
                    cx.undecided("C29|verify", wv, "the answer for a proof of %d hashes is %s" % (m, show(c, 3)))
                else:
                    acc = acc or whole
                    cx.check(whole, "C29|verify|fold", wv, "a proof of %d hashes is accepted on %s" % (m, show(c, 4)), o[1], (c,))
                continue
            if c.a[0] is True:
                acc = True
                vs = root_bytes(o[1], r)
                missing = [i for i in range(32) if i not in vs]
                if missing:
                    cx.check(False, "C29|verify|bytes", wv, "a proof of %d hashes is accepted without comparing bytes %s of the root"
                             % (m, missing[:8]), o[1])
                    continue
                srcs = {base_of(vs[i], i) for i in range(32)}
                good = len(srcs) == 1 and None not in srcs and fold_shape(h, sib, srcs.pop())
                cx.check(good, "C29|verify|fold", wv, "a proof of %d hashes is accepted on %s" % (m, show(vs[0], 5)), o[1],
                         tuple(vs.values()))
        cx.check(acc or m == 0, "C29|verify|never", wv, "no proof of %d hashes is ever accepted" % m)


def root_bytes(st, r):
    """byte index -> the value the path found equal to that byte of the root"""
    out = {}
    for c, v in st.bools.items():
        if v is not True:
            continue
        if c.k == "eqz":
            k, d = lin_of(c.a[0])
            at = [a for a in d if a.k == "elem" and a.a[0] is r and a.a[1].k == "int"]
            if k == 0 and len(at) == 1 and len(d) == 2:
                o = [a for a in d if a is not at[0]][0]
                if d[o] == -d[at[0]]:
                    out[at[0].a[1].a[0]] = o
        elif c.k == "eq" and r in c.a:
            o = c.a[0] if c.a[1] is r else c.a[1]
            for i in range(32):
                out[i] = elem(o, integer(i))
    return out


def fold_shape(h, sib, v):
    """v is the leaf folded with the siblings in order"""
    try:
        t = node(v, {h} | set(sib))
    except BadNode:
        return False
    want = ("leaf", h)
    for s in sib:
        want = ("n", frozenset_pair(want, ("leaf", s)))
    return leaf_sets(t) == want


def fold_ok(h, r, sib, c, val):
    if c.k == "eq" and r in c.a:
        o = c.a[0] if c.a[1] is r else c.a[1]
        return fold_shape(h, sib, o)
    return None


# ------------------------------------------------------------------ C42
@rule("C42")
def c42(cx):
    """for every list length up to a bound and each position, with unknown distinct items, every path of get_proof yields
    the siblings of the item's path followed by the root, and the fold that verify_proof compares with the root (C29),
    applied to that item and those siblings, is the root term"""
    P = cx.P
    bp, rp, gp, vp = (cx.need(MT + x) for x in ("build_tree", "get_root", "get_proof", "verify_proof"))
    at = fn_where(P, gp)
    kind = verify_kinds(cx)
    low = 18 if cx.tier == "quick" else 34
    def members(n, about=""):
        items = leaves(n)
        known = set(items)
        for o in run_shape(cx, bp, {0: mk("arr", tuple(items))}):
            if o[0] != "ret":
                continue                                 # C29
            cell, tree = ("param", "tree"), o[2]
            for i in range(n) if n < low else (0, n // 2, n - 1):
                def setup(st, vals):
                    st.cells[cell] = tree
                    for j in range(n):
                        if j != i:
                            st.assume(eq(items[i], items[j]), False)
                for q in run_shape(cx, rp, {0: mk("ref", cell, ())}, setup):
                    root = deref(q[1], q[2]) if q[0] == "ret" else None
                if root is None:
                    continue                             # C29
                for q in run_shape(cx, gp, {0: mk("ref", cell, ()), 1: items[i]}, setup):
                    what = "item %d of %d%s" % (i, n, about)
                    if q[0] == "panic":
                        cx.violated("C42|panic|" + q[2][0], at, "the proof of %s: %s" % (what, q[2][0]), q[1])
                        continue
                    st, v = q[1], q[2]
                    if st.unk or v.k != "arr":
                        cx.undecided("C42|proof", at, "the proof of %s is %s" % (what, show(v, 3)))
                        continue
                    el = [deref(st, x) for x in (v.a[0] if isinstance(v.a[0], tuple) else v.a)]
                    try:
                        want = leaf_sets(node(root, known))
                        cx.check(bool(el) and leaf_sets(node(el[-1], known)) == want, "C42|root", at,
                                 "the proof of %s does not end in the root" % what, st, tuple(el[-1:]))
                        t = ("leaf", items[i])
                        ks = set()
                        for s in el[:-1]:
                            t = ("n", frozenset_pair(t, leaf_sets(node(s, known))))
                        ks = kinds(node(root, known))
                    except BadNode as x:
                        cx.undecided("C42|proof", at, "the proof of %s: %s" % (what, x))
                        continue
                    if ks != kind or ks != {"and"} and n > 1:
                        cx.undecided("C42|kind", at, "nodes are combined as %s, proofs checked as %s" % (sorted(ks), sorted(kind)))
                        continue
                    cx.check(t == want, "C42|fold", at, "the proof of %s does not verify: it has %d hashes, and folding the item "
                             "with them does not give the root" % (what, len(el) - 1), st, tuple(el))

    for n in list(range(1, low)) + corner_sizes(P, gp, low, 130, (33, 65)):
        members(n)
    for const, to, sizes in thresholds(P, gp):
        with scaled(cx, gp, const, to):
            for n in sizes:
                members(n, " (taking %s for %d)" % (to, const) if const else " (taking 8 for 16 bits)")


def deref(st, x):
    while x.k == "ref" and not x.a[1] and x.a[0] in st.cells:
        x = st.cells[x.a[0]]
    return x


def verify_kinds(cx):
    """how verify_proof combines two hashes"""
    h, r = bsym("leaf", 32), bsym("root", 32)
    sib = leaves(2, "sibling")
    out = set()
    for o in run_verify(cx, 2):
        if o[0] != "ret":
            continue
        c = o[2]
        try:
            if c.k == "eq" and r in c.a:
                out |= kinds(node(c.a[0] if c.a[1] is r else c.a[1], {h} | set(sib)))
            elif c.k == "bool" and c.a[0] is True:
                vs = root_bytes(o[1], r)
                src = {base_of(vs[i], i) for i in vs}
                for s in src - {None}:
                    out |= kinds(node(s, {h} | set(sib)))
        except BadNode:
            continue
    return out
