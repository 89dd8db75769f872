"""Effects and values of functions outside the crate (bytes, core/alloc, chrono, modular-bitfield).

Every model returns (value, state); (None, None) means the call does not return.  A callee without
a model is handled by Interp.opaque_call: unknown result, everything it may mutate is unknown.
"""
import re
from vg import *
import vg


def BYTE(v, w, i):
    """byte i of the w-byte big-endian image of the unsigned value v"""
    if v.op in ("bot", "top"):
        return v
    if v.op == "k":
        return K((v.a[0] >> (8 * (w - 1 - i))) & 255)
    if v.op == "get" and v.a[2] == w == 1:
        return v
    if w == 1:
        return TRUNC(8, False, v)
    if v.op == "cat":
        k = i - (w - len(v.a[0]))
        return v.a[0][k] if k >= 0 else K(0)
    return mk("byte", (v, w, i))


def CAT(bs):
    """unsigned value of big-endian bytes"""
    bs = tuple(bs)
    for b in bs:
        if b.op in ("bot", "top"):
            return b
    if all(b.op == "k" for b in bs):
        r = 0
        for b in bs:
            r = r << 8 | b.a[0]
        return K(r)
    b0 = bs[0]
    if b0.op == "byte" and b0.a[1] == len(bs) and all(b.op == "byte" and b.a[0] is b0.a[0] and b.a[1] == len(bs) and b.a[2] == i for i, b in enumerate(bs)):
        return TRUNC(8 * len(bs), False, b0.a[0])
    if len(bs) == 1:
        return bs[0]
    return mk("cat", (bs,))


vg.BYTE, vg.CAT = BYTE, CAT


def opt_none(ty):
    return AGG(ty, _var(ty, "None"), [])


def opt_some(ty, v):
    return AGG(ty, _var(ty, "Some"), [v])


def _var(ty, name):
    for i, v in enumerate(tinfo(ty).get("variants") or []):
        if v["name"] == name:
            return i
    return 0


def res_ok(ty, v):
    return AGG(ty, _var(ty, "Ok"), [v])


def res_err(ty, v):
    return AGG(ty, _var(ty, "Err"), [v])


INT = {"u8": (1, False), "i8": (1, True), "u16": (2, False), "i16": (2, True), "u32": (4, False), "i32": (4, True), "u64": (8, False),
       "i64": (8, True), "u128": (16, False), "i128": (16, True), "usize": (8, False), "isize": (8, True)}


def utype(I, w):
    return I.p.tname.get({1: "u8", 2: "u16", 4: "u32", 8: "u64", 16: "u128"}.get(w, ""))


# ------------------------------------------------------------------ bytes::Buf / BufMut
_GET = re.compile(r"^get_([uif])(8|16|32|64|128)(_le|_ne)?$")
_PUT = re.compile(r"^put_([uif])(8|16|32|64|128)(_le|_ne)?$")


def need_bytes(I, st, buf, n, line):
    rem = I.remaining(st, buf)
    g = lsub(rem, n)
    return I.need(st, g, ("underflow", buf, n), line)


def do_get(I, st, buf, w, endian, line):
    if not need_bytes(I, st, buf, K(w), line):
        return None
    uid = fresh()
    v = cursor_value(I, st, buf, w, endian)
    I.emit(st, buf, ("get", uid, "u", w, endian))
    return v if v is not None else mk("get", (uid, "u", w, endian))


def cursor_value(I, st, buf, w, endian):
    """the octets at the front of a cursor over known data"""
    b = I.bufs.get(buf, {})
    if b.get("kind") != "cursor" or b.get("base") is None:
        return None
    pos = I.consumed(st, buf)
    if has_op(pos, ("top", "markpos")):
        return None
    xs = [ELEM(b["base"], ladd([pos, K(i)])) for i in range(w)]
    if any(x.op in ("top", "bot") for x in xs):
        return None
    return xs[0] if w == 1 else CAT(xs if endian == "be" else xs[::-1])


def buf_call(I, name, argv, argt, st, dty, line):
    tk = I.find_take(st, argv[0])
    save = I.limits
    # through a handle that is limited to so many octets, no more than those remain
    I.limits = {**save, tk.a[0]: tk} if tk is not None else {}
    try:
        return _buf_call(I, name, argv, argt, st, dty, line)
    finally:
        I.limits = save


def vec_put(I, name, argv, argt, st):
    """the put_* operations on a vector of octets, which append to it"""
    t = argt[0]
    r = argv[0]
    while tinfo(t).get("k") == "ref" and tinfo(tinfo(t)["of"]).get("k") == "ref" and r.op == "ref":
        t, r = tinfo(t)["of"], I.load(st, r)
    if r.op != "ref" or not is_vec(tinfo(t).get("of")) or len(argv) < 2:
        return False
    m = _PUT.match(name)
    if m:
        w = int(m.group(2)) // 8
        u = TOBITS(argv[1]) if m.group(1) == "f" else TRUNC(8 * w, False, argv[1])
        bs = [BYTE(u, w, i) for i in range(w)]
        if m.group(3):
            bs.reverse()
        new = SEQ([("1", x) for x in bs])
    elif name in ("put_slice", "put"):
        new = as_seq(I, st, argv[1])
        if new.op in ("buf", "top", "bot"):
            return False
    elif name == "put_bytes":
        new = REPEAT(argv[1], argv[2])
    else:
        return False
    v = I.load(st, r)
    if v.op in ("top", "bot"):
        return False
    I.store(st, r.a[0], r.a[1], SEQ([("n", v), ("n", new)], v.ty))
    return True


def _buf_call(I, name, argv, argt, st, dty, line):
    b = I.find_buf(st, argv[0])
    if b is None and vec_put(I, name, argv, argt, st):
        return UNIT, st
    if b is None:
        I.note("unknown buffer for " + name)
        x = argv[0]
        while x is not None and x.op == "ref" and not x.a[1]:
            y = st.cells.get(x.a[0])
            if y is not None and y.op == "sw":
                fresh = {c: st.eff.get(c) == () for c in I.bufs}
                I.event("split-buffer", (x.a[0], y, fresh), st, line)
            x = y
        I.havoc_args(argv, argt, st, name)
        I.event("unknown-buffer", name, st, line)
        return TOP("buffer"), st
    kind = I.bufs[b]["kind"]
    m = _GET.match(name)
    if m:
        w = int(m.group(2)) // 8
        e = "le" if m.group(3) else "be"
        if w == 1:
            e = "be"
        g = do_get(I, st, b, w, e, line)
        if g is None:
            return None, None
        if m.group(1) == "u":
            return g, st
        if m.group(1) == "i":
            return TRUNC(8 * w, True, g), st
        return FROMBITS(w, g, dty), st
    m = _PUT.match(name)
    if m:
        w = int(m.group(2)) // 8
        e = "le" if m.group(3) else "be"
        if w == 1:
            e = "be"
        v = argv[1]
        if m.group(1) == "i":
            v = TRUNC(8 * w, False, v)
        elif m.group(1) == "f":
            v = TOBITS(v)
        I.emit(st, b, ("put", "u", w, e, v))
        return UNIT, st
    if name in ("put_uint", "put_uint_le") and isk(argv[2]):
        w = argv[2].a[0]
        I.emit(st, b, ("put", "u", w, "be" if name == "put_uint" else "le", TRUNC(8 * w, False, argv[1])))
        return UNIT, st
    if name in ("put_int", "put_int_le") and isk(argv[2]):
        w = argv[2].a[0]
        I.emit(st, b, ("put", "u", w, "be" if name == "put_int" else "le", TRUNC(8 * w, False, argv[1])))
        return UNIT, st
    if name in ("get_int", "get_int_le") and isk(argv[1]):
        g = do_get(I, st, b, argv[1].a[0], "be" if name == "get_int" else "le", line)
        return (TRUNC(8 * argv[1].a[0], True, g), st) if g is not None else (None, None)
    if name in ("get_uint", "get_uint_le") and isk(argv[1]):
        g = do_get(I, st, b, argv[1].a[0], "be" if name == "get_uint" else "le", line)
        return (g, st) if g is not None else (None, None)
    if name in ("put_slice", "extend_from_slice", "put", "extend", "unsplit") and kind == "w":
        src = argv[1] if argv[1].op == "buf" else through(I, st, argv[1])
        if src.op == "buf" and src.a[0] != b and I.bufs.get(src.a[0], {}).get("fresh"):
            # the contents of a scratch buffer, all of it
            for t in st.eff.get(src.a[0], ()):
                I.emit(st, b, t)
            return UNIT, st
    if name in ("put_slice", "extend_from_slice"):
        put_bytes(I, st, b, as_seq(I, st, argv[1]))
        return UNIT, st
    if name == "put_bytes":
        put_bytes(I, st, b, REPEAT(argv[1], argv[2]))
        return UNIT, st
    if name == "put":
        v = as_seq(I, st, argv[1])
        if v.op == "buf":
            I.emit(st, b, ("other", "put(buffer)"))
        else:
            put_bytes(I, st, b, v)
        return UNIT, st
    if name in ("remaining", "len") and kind in ("r", "cursor"):
        return I.remaining(st, b), st
    if name == "take" and kind in ("r", "cursor") and len(argv) == 2:
        n = argv[1]
        if I.limits.get(b) is not None:
            n = MINMAX("min", n, I.remaining(st, b))
        return mk("btake", (b, n, I.consumed(st, b), argv[0]), dty), st
    if name == "by_ref" and argv[0].op == "ref":
        return argv[0], st
    if name == "len" and kind == "w":
        t = tok_written(I, st, b)
        return ladd([before(I, b), t]), st
    if name == "is_empty" and kind == "w":
        return EQ(ladd([before(I, b), tok_written(I, st, b)]), K(0)), st
    if name == "has_remaining" or name == "is_empty":
        c = GE0(lsub(I.remaining(st, b), K(1)))
        return (c if name == "has_remaining" else NOT(c)), st
    if name == "remaining_mut":
        return fun("remaining_mut", [K(b)], dty), st
    if name == "capacity":
        return mk("cap", (b,), dty), st
    if name == "has_remaining_mut":
        return TRUE, st
    if name == "advance":
        if kind == "w":
            I.emit(st, b, ("other", "advance"))
            return UNIT, st
        if not need_bytes(I, st, b, argv[1], line):
            return None, None
        skip(I, st, b, argv[1])
        return UNIT, st
    if name in ("copy_to_slice",):
        dst = argv[1]
        n = LEN(I.load(st, dst))
        if not need_bytes(I, st, b, n, line):
            return None, None
        v = getseq(I, st, b, n)
        if dst.op == "ref":
            cur = I.load(st, dst)
            if isk(n) and n.a[0] <= 512 and tinfo(cur.ty).get("k") == "array":
                v = AGG(cur.ty, None, [ELEM(v, K(j)) for j in range(n.a[0])])
            I.store(st, dst.a[0], dst.a[1], v)
        return UNIT, st
    if name in ("copy_to_bytes", "split_to"):
        if kind == "w":
            I.emit(st, b, ("other", name))
            return TOP(name), st
        if not need_bytes(I, st, b, argv[1], line):
            return None, None
        return getseq(I, st, b, argv[1]), st
    if name == "reserve":
        I.event("alloc", ("reserve", argv[1], 1), st, line)
        return UNIT, st
    if name in ("chunk", "as_ref", "deref", "borrow", "as_slice") and I.bufs[b].get("fresh"):
        return argv[0], st
    if name in ("chunk", "as_ref", "deref", "borrow"):
        c = mk("chunk", (b, I.consumed(st, b)))
        return I.ref_to(st, c), st
    if name == "try_get_u8" or name.startswith("try_get_"):
        m = _GET.match(name[4:])
        if m:
            w = int(m.group(2)) // 8
            enough = GE0(lsub(I.remaining(st, b), K(w)))
            dec = I.decide(st.pc, enough)
            s1, s0 = st.copy(), st
            arms = []
            if dec is not False:
                I.assume(s1, enough, True)
                uid = fresh()
                I.emit(s1, b, ("get", uid, "u", w, "le" if m.group(3) and w > 1 else "be"))
                g = mk("get", (uid, "u", w, "be"))
                v = g if m.group(1) == "u" else (TRUNC(8 * w, True, g) if m.group(1) == "i" else FROMBITS(w, g, None))
                ok = res_ok(dty, v)
                if dec is True:
                    return ok, s1
            I.assume(s0, enough, False)
            er = res_err(dty, mk("opaque", ("TryGetError",)))
            if dec is False:
                return er, s0
            out = I.join(enough, [(0, s0), (None, s1)], ())
            return ITE(enough, ok, er), out
    if name == "clear" and I.bufs[b].get("fresh"):
        st.eff[b] = ()
        return UNIT, st
    if kind == "w":
        I.emit(st, b, ("other", name))
        I.note("buffer operation " + name)
        return TOP(name), st
    I.emit(st, b, ("other", name))
    I.note("buffer operation " + name)
    I.event("unknown-buffer", name, st, line)
    return TOP(name), st


def before(I, b):
    """the octets buffer b held when the function was entered"""
    return K(0) if I.bufs[b].get("fresh") else mk("wlen", (b,))


def tok_written(I, st, b):
    from interp import tok_size
    return tok_size(st.eff.get(b, ()), False)


def skip(I, st, b, n):
    uid = fresh()
    if isk(n):
        if n.a[0] == 0:
            return
        if n.a[0] <= 64:
            for _ in range(n.a[0]):
                I.emit(st, b, ("get", fresh(), "u", 1, "be"))
            return
    I.emit(st, b, ("getseq", uid, n))


def getseq(I, st, b, n):
    if isk(n) and n.a[0] <= 256:
        xs = []
        for _ in range(n.a[0]):
            u = fresh()
            v = cursor_value(I, st, b, 1, "be")
            I.emit(st, b, ("get", u, "u", 1, "be"))
            xs.append(("1", v if v is not None else mk("get", (u, "u", 1, "be"))))
        return SEQ(xs)
    uid = fresh()
    I.emit(st, b, ("getseq", uid, n))
    return mk("getseq", (uid, n))


def put_bytes(I, st, b, v):
    """append the byte sequence v; byte images of integers become integer tokens"""
    if v.op == "agg" and tinfo(v.ty).get("k") == "array":
        v = SEQ([("1", x) for x in v.a[1]])
    if v.op == "bytes":
        v = SEQ([("1", K(x)) for x in v.a[0]])
    ln = LEN(v)
    if isk(ln, 0):
        return
    if v.op in ("elem", "fld", "in", "slice") and isk(ln) and ln.a[0] <= 64:
        v = mk("seq", tuple(("1", ELEM(v, K(j))) for j in range(ln.a[0])))
    if v.op == "seq":
        parts = list(v.a)
        i = 0
        while i < len(parts):
            k, x = parts[i]
            if k == "1":
                if x.op == "byte" and x.a[2] == 0 and i + x.a[1] <= len(parts):
                    w = x.a[1]
                    run = [p[1] for p in parts[i:i + w]]
                    if all(r.op == "byte" and r.a[0] is x.a[0] and r.a[1] == w and r.a[2] == j for j, r in enumerate(run)):
                        I.emit(st, b, ("put", "u", w, "be", x.a[0]))
                        i += w
                        continue
                if x.op == "byte" and x.a[2] == x.a[1] - 1 and i + x.a[1] <= len(parts):
                    w = x.a[1]
                    run = [p[1] for p in parts[i:i + w]]
                    if all(r.op == "byte" and r.a[0] is x.a[0] and r.a[1] == w and r.a[2] == w - 1 - j for j, r in enumerate(run)):
                        I.emit(st, b, ("put", "u", w, "le", x.a[0]))
                        i += w
                        continue
                I.emit(st, b, ("put", "u", 1, "be", TRUNC(8, False, x)))
            else:
                put_bytes(I, st, b, x)
            i += 1
        return
    if v.op == "sw":
        scr = v.a[0]
        arms = []
        for k, x in v.a[1]:
            s = st.copy()
            put_bytes(I, s, b, x)
            arms.append((k, s))
        if v.a[2].op != "bot":
            s = st.copy()
            put_bytes(I, s, b, v.a[2])
            arms.append((None, s))
        o = I.join(scr, arms, ())
        st.cells, st.eff = o.cells, o.eff
        return
    I.emit(st, b, ("putseq", v))


# ------------------------------------------------------------------ sequences and references
def through(I, st, v, n=8):
    """strip references"""
    while v.op == "ref" and n:
        x = I.load(st, v)
        if x.op != "ref":
            return x
        v = x
        n -= 1
    if v.op == "ref":
        return I.load(st, v)
    return v


def as_seq(I, st, v):
    if v.op == "ref":
        return through(I, st, v)
    t = tinfo(v.ty)
    if t.get("k") == "ref":
        return I.deref(st, v)
    return v


def innermost(I, st, v):
    """the innermost reference of a chain of references"""
    for _ in range(8):
        if v.op != "ref":
            return v
        x = I.load(st, v)
        if x.op != "ref":
            return v
        v = x
    return v


def elem_ref(I, st, ref, i):
    if ref.op == "ref":
        return mk("ref", (ref.a[0], ref.a[1] + (("i", i),)))
    if ref.op in ("bot", "top"):
        return ref
    return I.ref_to(st, ELEM(I.deref(st, ref), i))


def slice_ref(I, st, ref, off, n):
    if isk(off, 0) and LEN(I.load(st, ref)) is n:
        return ref
    if ref.op == "ref":
        return mk("ref", (ref.a[0], ref.a[1] + (("r", off, n),)))
    if ref.op in ("bot", "top"):
        return ref
    return I.ref_to(st, SLICE(I.deref(st, ref), off, n))


# ------------------------------------------------------------------ iterators
def itd(kind, *a):
    return mk("itd", (kind,) + a)


def IT(desc, n, pos=None):
    return mk("it", (desc, pos if pos is not None else K(0), n))


def make_iter(I, st, v, t):
    """iterator value of an IntoIterator value v of type t; None when not understood"""
    if v.op == "it":
        return v
    i = tinfo(t)
    if i.get("k") == "ref":
        inner = tinfo(i["of"])
        r = innermost(I, st, v)
        x = I.load(st, r) if r.op == "ref" else I.deref(st, r)
        if x.op == "it":
            return ("ref", r)
        if inner.get("k") in ("array", "slice") or is_vec(i["of"]):
            return IT(itd("slice", r), LEN(x))
        if inner.get("k") == "ref":
            return make_iter(I, st, I.load(st, v), i["of"])
        if is_opt(i["of"]) and r.op == "ref":
            k = _var(i["of"], "Some")
            pt = (nfields(i["of"], k) or [None])[0]
            n = some_count(x)
            return IT(itd("once", mk("ref", (r.a[0], r.a[1] + (("f", k, 0, pt),)))), n) if n is not None else None
        return None
    if is_opt(t):
        k = _var(t, "Some")
        n = some_count(v)
        return IT(itd("once", FLD(v, k, 0, (nfields(t, k) or [None])[0])), n) if n is not None else None
    if i.get("k") == "array" or is_vec(t):
        return IT(itd("own", v), LEN(v))
    p = i.get("path", "")
    if p.endswith("ops::Range") and v.op == "agg":
        lo, hi = v.a[1][0], v.a[1][1]
        return IT(itd("range", lo), count(I, st, lo, hi))
    if p.endswith("ops::RangeInclusive") and v.op == "agg":
        lo, hi = v.a[1][0], v.a[1][1]
        return IT(itd("range", lo), count(I, st, lo, ladd([hi, K(1)])))
    return None


def count(I, st, lo, hi):
    n = lsub(hi, lo)
    if n.op in ("top", "bot"):
        return n
    if rng(n)[0] >= 0 or I.implied(st.pc, n):
        return n
    if rng(n)[1] <= 0:
        return K(0)
    return MINMAX("max", n, K(0))


def some_count(x):
    """how many elements an option holds"""
    d = DISCR(x)
    if d.op in ("top", "bot"):
        return None
    return SW(d, ((0, K(0)),), K(1))


def is_vec(t):
    return tinfo(t).get("path") in ("std::vec::Vec", "alloc::vec::Vec")


def is_string(t):
    return tinfo(t).get("path") in ("std::string::String", "alloc::string::String") or tinfo(t).get("k") == "str"


def is_opt(t):
    return (tinfo(t).get("path") or "").endswith("option::Option")


def is_bytesbuf(t):
    return (tinfo(t).get("path") or "").split("::")[-1] in ("Bytes", "BytesMut")


def it_at(I, st, d, i, total):
    """(value, state) of element i of the iterator description d"""
    k = d.a[0]
    if k == "slice":
        return elem_ref(I, st, d.a[1], i), st
    if k == "own":
        return ELEM(d.a[1], i), st
    if k == "range":
        return ladd([d.a[1], i]), st
    if k == "rev":
        return it_at(I, st, d.a[1], lsub(lsub(d.a[2], K(1)), i), total)
    if k == "off":
        return it_at(I, st, d.a[1], ladd([d.a[2], i]), total)
    if k == "step":
        return it_at(I, st, d.a[1], lmul(d.a[2], i), total)
    if k == "map":
        x, st = it_at(I, st, d.a[1], i, total)
        if st is None:
            return None, None
        return I.call_value(d.a[2], [x], [None], st, None, None)
    if k == "cloned":
        x, st = it_at(I, st, d.a[1], i, total)
        return I.load(st, x), st
    if k == "enum":
        x, st = it_at(I, st, d.a[1], i, total)
        return AGG(d.a[2].ty, None, [i, x]), st
    if k == "zip":
        x, st = it_at(I, st, d.a[1], i, total)
        y, st = it_at(I, st, d.a[2], i, total)
        return AGG(d.a[3].ty, None, [x, y]), st
    if k == "chunks":
        w = d.a[2]
        if len(d.a) > 3:
            rest = lsub(d.a[3], lmul(i, w))
            g = lsub(rest, w)
            return slice_ref(I, st, d.a[1], lmul(i, w), w if g.op != "top" and (rng(g)[0] >= 0 or I.implied(st.pc, g)) else MINMAX("min", rest, w)), st
        return slice_ref(I, st, d.a[1], lmul(i, w), w), st
    if k == "once":
        return d.a[1], st
    if k == "rw":
        return I.call_value(d.a[1], [], [], st, None, None)
    if k == "chain":
        c = GE0(lsub(lsub(d.a[3], K(1)), i))
        if c is TRUE:
            return it_at(I, st, d.a[1], i, total)
        if c is FALSE:
            return it_at(I, st, d.a[2], lsub(i, d.a[3]), total)
    return TOP("iterator " + str(k)), st


def it_next(I, st, ref, dty, line):
    """Iterator::next through a reference to the iterator"""
    r = ref
    for _ in range(6):
        v = I.load(st, r)
        if v.op == "ref":
            r = v
        else:
            break
    if v.op == "agg":
        w = make_iter(I, st, v, v.ty)
        if w is None:
            return None
        v = w
    if v.op != "it":
        return None
    d, pos, n = v.a
    c = GE0(lsub(lsub(n, pos), K(1)))
    dec = I.decide(st.pc, c)
    if c.op == "top":
        return None
    nv = mk("it", (d, ladd([pos, K(1)]), n))
    if dec is False:
        return opt_none(dty), st
    if dec is True:
        I.store(st, r.a[0], r.a[1], nv)
        x, s1 = it_at(I, st, d, pos, n)
        if s1 is None:
            return None, None
        return opt_some(dty, x), s1
    if pure_at(d):
        I.store(st, r.a[0], r.a[1], nv)
        x, s1 = it_at(I, st, d, pos, n)
        return SW(c, ((0, opt_none(dty)),), opt_some(dty, x)), s1
    s1 = st.copy()
    I.assume(s1, c, True)
    I.store(s1, r.a[0], r.a[1], nv)
    x, s1 = it_at(I, s1, d, pos, n)
    I.store(st, r.a[0], r.a[1], nv)
    if s1 is None:
        I.assume(st, c, False)
        return opt_none(dty), st
    out = I.join(c, [(0, st), (None, s1)], ())
    return SW(c, ((0, opt_none(dty)),), opt_some(dty, x)), out


def pure_at(d):
    if d.a[0] in ("map", "rw"):
        return False
    return all(pure_at(x) for x in d.a[1:] if isinstance(x, N) and x.op == "itd")


def tup2(I, st, a, b):
    return None


def drive(I, st, it, line, body):
    """run body(state, element) for every element left; returns ('const', state) or ('loop', uid, n, value, state)"""
    d, pos, n = it.a
    left = lsub(n, pos)
    if left.op == "top":
        return None
    if isk(left) and left.a[0] <= 600:
        vals = []
        for j in range(max(0, left.a[0])):
            x, st = it_at(I, st, d, ladd([pos, K(j)]), n)
            if st is None:
                return ("div",)
            v, st = body(st, x)
            if st is None:
                return ("div",)
            vals.append(v)
        return ("const", vals, st)

    if rng(left)[0] >= 0 and rng(left)[1] <= 1:
        # an option: the body runs once or not at all
        c = GE0(lsub(left, K(1)))
        dec = I.decide(st.pc, c)
        s1 = st.copy()
        if dec is not True:
            I.assume(s1, c, True)
        x, s1 = it_at(I, s1, d, pos, n)
        if s1 is not None:
            v, s1 = body(s1, x)
        if dec is True:
            return ("div",) if s1 is None else ("const", [v], s1)
        if s1 is None:
            I.assume(st, c, False)
            return ("const", [], st)
        out = I.join(c, [(0, st), (None, s1)], ())
        return ("opt", c, v, out)

    def step(s, ix):
        x, s = it_at(I, s, d, ladd([pos, ix]), n)
        if s is None:
            return None, None
        return body(s, x)
    r = I.virtual_loop(st, left, step, "iterator")
    if r is None:
        return ("div",)
    uid, v, s = r
    return ("loop", uid, left, v, s)


ADAPT = {"map", "rev", "enumerate", "zip", "take", "skip", "cloned", "copied", "by_ref", "chain", "step_by", "into_iter", "fuse"}


def iter_call(I, c, name, argv, argt, st, dty, line):
    if name == "into_iter":
        it = make_iter(I, st, argv[0], argt[0])
        if it is None:
            return None
        if isinstance(it, tuple):
            return it[1], st
        return it, st
    if name == "next":
        return it_next(I, st, argv[0], dty, line)
    if name == "by_ref":
        return argv[0], st
    if name in ("len", "size_hint", "next_back", "nth", "peekable", "last", "count", "is_empty"):
        v = through(I, st, argv[0])
        if v.op == "it" and name in ("len", "count"):
            if pure_at(v.a[0]) or name == "len":
                return lsub(v.a[2], v.a[1]), st
        if v.op == "it" and name == "next_back":
            r = innermost(I, st, argv[0])
            d, pos, n = v.a
            cnd = GE0(lsub(lsub(n, pos), K(1)))
            if pure_at(d):
                x, st = it_at(I, st, d, lsub(n, K(1)), n)
                I.store(st, r.a[0], r.a[1], mk("it", (d, pos, lsub(n, K(1)))))
                return SW(cnd, ((0, opt_none(dty)),), opt_some(dty, x)), st
        return None
    src = argv[0]
    it = src if src.op == "it" else None
    if it is None:
        it = make_iter(I, st, src, argt[0])
        if isinstance(it, tuple):
            # &mut iterator: consume it through the reference
            r = it[1]
            it = I.load(st, r)
            if name in ADAPT:
                return None
            I.store(st, r.a[0], r.a[1], mk("it", (it.a[0], it.a[2], it.a[2])))
        if it is None:
            return None
    d, pos, n = it.a
    if not isk(pos, 0) and name in ADAPT:
        d, n, pos = itd("off", d, pos), lsub(n, pos), K(0)
    if name in ("fuse",):
        return it, st
    if name == "map":
        return IT(itd("map", d, argv[1]), n), st
    if name == "rev":
        return IT(itd("rev", d, n), n), st
    if name in ("cloned", "copied"):
        return IT(itd("cloned", d), n), st
    if name == "enumerate":
        ty = item_ty(I, dty)
        return IT(itd("enum", d, mk("tymark", (), ty)), n), st
    if name == "zip":
        o = make_iter(I, st, argv[1], argt[1])
        if o is None or isinstance(o, tuple):
            return None
        m = lsub(o.a[2], o.a[1])
        d2 = o.a[0] if isk(o.a[1], 0) else itd("off", o.a[0], o.a[1])
        if n is not m:
            g = lsub(n, m)
            if rng(g)[0] >= 0 or I.implied(st.pc, g):
                n = m
            elif rng(g)[1] <= 0 or I.implied(st.pc, lsub(m, n)):
                pass
            else:
                n = MINMAX("min", n, m)
        return IT(itd("zip", d, d2, mk("tymark", (), item_ty(I, dty))), n), st
    if name in ("take", "skip"):
        k = argv[1]
        g = lsub(n, k)
        if rng(g)[0] >= 0 or I.implied(st.pc, g):
            pass
        elif rng(g)[1] <= 0 or I.implied(st.pc, lsub(k, n)):
            k = n
        else:
            k = MINMAX("min", n, k)
        if name == "take":
            return IT(d, k), st
        return IT(itd("off", d, k), lsub(n, k)), st
    if name == "chain":
        o = make_iter(I, st, argv[1], argt[1])
        if o is None or isinstance(o, tuple):
            return None
        d2 = o.a[0] if isk(o.a[1], 0) else itd("off", o.a[0], o.a[1])
        m = lsub(o.a[2], o.a[1])
        return IT(itd("chain", d, d2, n), ladd([n, m])), st
    if name == "step_by" and isk(argv[1]) and argv[1].a[0] > 0:
        k = argv[1].a[0]
        return IT(itd("step", d, K(k)), BIN("Div", ladd([n, K(k - 1)]), K(k), I.p.usize)), st
    if name == "sum" or name == "product":
        r = drive(I, st, it, line, lambda s, x: (I.load(s, x) if x.op == "ref" else x, s))
        if r is None:
            return None
        if r[0] == "div":
            return None, None
        if name == "product":
            if r[0] != "const":
                return None
            v = K(1)
            for x in r[1]:
                v = lmul(v, x)
            return to_type(v, dty), r[2]
        if r[0] == "opt":
            v, st = ITE(r[1], r[2], K(0)), r[3]
        elif r[0] == "const":
            v, st = (ladd(r[1]) if r[1] else K(0)), r[2]
        else:
            v, st = SUM(r[1], r[2], r[3]), r[4]
        if tinfo(dty).get("k") == "int" and v.op != "top":
            hi = lsub(K(trange(dty)[1]), v)
            if not I.need(st, hi, ("overflow", "Sum", v, v, dty), line):
                return None, None
        elif tinfo(dty).get("k") == "float":
            v = TOP("float sum")
        return v, st
    if name in ("for_each",):
        r = drive(I, st, it, line, lambda s, x: I.call_value(argv[1], [x], [None], s, None, line))
        if r is None:
            return None
        if r[0] == "div":
            return None, None
        return UNIT, r[-1]
    if name == "fold":
        acc = I.new_cell(st, argv[1])

        def body(s, x):
            v, s = I.call_value(argv[2], [s.cells[acc], x], [None, None], s, None, line)
            if s is None:
                return None, None
            s.cells[acc] = v
            return UNIT, s
        r = drive(I, st, it, line, body)
        if r is None:
            return None
        if r[0] == "div":
            return None, None
        s = r[-1]
        return s.cells[acc], s
    if name in ("position", "find") and isk(lsub(n, pos)) and lsub(n, pos).a[0] <= 64 and is_opt(dty):
        if src.op != "it":
            I.store(st, r.a[0], r.a[1], mk("it", (d, TOP("partly consumed"), n)))
        found = []
        s = st
        for j in range(lsub(n, pos).a[0]):
            x, s = it_at(I, s, d, ladd([pos, K(j)]), n)
            if s is None:
                return None, None
            v, s2 = I.call_value(argv[1], [x if name == "position" else I.ref_to(s, x)], [None], s, None, line)
            if s2 is None:
                return None, None
            if s2.eff != s.eff:
                return None
            s = s2
            found.append((v, K(j) if name == "position" else x))
        out = opt_none(dty)
        for v, x in reversed(found):
            out = ITE(v, opt_some(dty, x), out)
        return out, s
    if name in ("any", "all"):
        if isk(lsub(n, pos)) and lsub(n, pos).a[0] <= 600:
            r = drive(I, st, it, line, lambda s, x: I.call_value(argv[1], [x], [None], s, None, line))
            if r is None or r[0] == "div":
                return None, None
            v = FALSE if name == "any" else TRUE
            for x in reversed(r[1]):
                v = OR(x, v) if name == "any" else AND(x, v)
            return v, r[2]
        s = st.copy()
        r = drive(I, s, it, line, lambda q, x: I.call_value(argv[1], [x], [None], q, None, line))
        if r is None or r[0] == "div":
            return None
        if r[0] == "loop" and r[-1].eff == st.eff:
            return mk("fun", (name, r[2], r[3]), dty), st
        return None
    if name == "collect":
        if is_vec(dty):
            r = drive(I, st, it, line, lambda s, x: (x, s))
            if r is None:
                return None
            if r[0] == "div":
                return None, None
            I.event("alloc", ("collect", lsub(n, pos), esize(dty)), st, line)
            if r[0] == "const":
                return SEQ([("1", x) for x in r[1]]), r[2]
            if r[0] == "opt":
                return ITE(r[1], SEQ([("1", r[2])]), SEQ([])), r[3]
            return MAP(r[1], r[2], r[3]), r[4]
        return None
    if name in ("max", "min") and isk(lsub(n, pos)) and lsub(n, pos).a[0] <= 64:
        return None
    return None


def item_ty(I, dty):
    """Item type (a tuple) of an adaptor type like Enumerate<I>/Zip<A,B>: looked up lazily by arity"""
    return None


def esize(vty):
    a = (tinfo(vty).get("args") or [None])[0]
    s = tinfo(a).get("size") if a is not None else None
    return s if s is not None else 1


# ------------------------------------------------------------------ ranges as indices
def bounds_of(I, st, rv, rt, n, inclusive_ok=True):
    """(offset, length, obligations) of an index value for a sequence of length n"""
    p = tinfo(rt).get("path", "")
    nm = p.split("::")[-1]
    f = rv.a[1] if rv.op == "agg" else None
    if nm == "RangeFull":
        return K(0), n, []
    if rv.op in ("top", "bot"):
        return None
    if f is None:
        f = [FLD(rv, None, i, I.p.usize) for i in range(2)]
    if nm == "Range":
        return f[0], lsub(f[1], f[0]), [lsub(f[1], f[0]), lsub(n, f[1])]
    if nm == "RangeTo":
        return K(0), f[0], [lsub(n, f[0])]
    if nm == "RangeFrom":
        return f[0], lsub(n, f[0]), [lsub(n, f[0])]
    if nm == "RangeInclusive":
        e = ladd([f[1], K(1)])
        return f[0], lsub(e, f[0]), [lsub(e, f[0]), lsub(n, e)]
    if nm == "RangeToInclusive":
        e = ladd([f[0], K(1)])
        return K(0), e, [lsub(n, e)]
    return None


def scratch_seq(toks):
    """the octets of a scratch buffer, when only integers were put there"""
    bs = []
    for t in toks:
        if t[0] != "put" or t[1] != "u":
            return None
        b = [BYTE(t[4], t[2], j) for j in range(t[2])]
        bs += b if t[3] == "be" else b[::-1]
    return SEQ([("1", x) for x in bs])


def index_call(I, argv, argt, st, dty, line):
    r = innermost(I, st, argv[0])
    base = I.load(st, r)
    if base.op == "buf":
        if not I.bufs.get(base.a[0], {}).get("fresh"):
            return None
        if (tinfo(argt[1]).get("path") or "").endswith("RangeFull"):
            return r, st
        base = scratch_seq(st.eff.get(base.a[0], ()))
        if base is None:
            return None
        r = I.ref_to(st, base)
    n = LEN(base)
    idx, it = argv[1], argt[1]
    if tinfo(it).get("k") == "int":
        if not I.need(st, lsub(lsub(n, idx), K(1)), ("bounds", idx, n), line):
            return None, None
        return elem_ref(I, st, r, idx), st
    b = bounds_of(I, st, idx, it, n)
    if b is None:
        return None
    off, ln, obl = b
    for g in obl:
        if not I.need(st, g, ("slice", idx, n), line):
            return None, None
    t0 = argt[0]
    while tinfo(t0).get("k") == "ref":
        t0 = tinfo(t0)["of"]
    if is_string(t0):
        for k in (off, ladd([off, ln])):
            if not char_boundary(I, st, base, k, line):
                return None, None
    return slice_ref(I, st, r, off, ln), st


# ------------------------------------------------------------------ modular-bitfield
def spec_bits(I, t):
    i = tinfo(t)
    if i.get("k") == "bool":
        return 1
    if i.get("k") == "int":
        return i["bits"]
    nm = (i.get("path") or "").split("::")[-1]
    m = re.match(r"^B(\d+)$", nm)
    if m:
        return int(m.group(1))
    for c in I.p.facts["consts"]:
        if c.get("name") == "BITS" and (c.get("impl_trait") or "").endswith("Specifier") and c.get("self_name") == i.get("name") and c.get("v"):
            b = (c["v"].get("v") or {}).get("bits")
            if b is not None:
                return b
    return None


def eq_impl(I, t):
    """the crate's own PartialEq::eq for a type, if it has one"""
    tab = getattr(I.p, "_eqimpl", None)
    if tab is None:
        tab = I.p._eqimpl = {}
        for f in I.p.fns.values():
            if f.get("name") == "eq" and f.get("impl_trait") == "std::cmp::PartialEq" and f.get("self_name"):
                tab[f["self_name"]] = f
    return tab.get(tinfo(t).get("name"))


def bit_read(seq, off, bits):
    """value of bits [off, off+bits) of a byte sequence, least significant first"""
    parts = []
    got = 0
    while got < bits:
        byte, lo = divmod(off + got, 8)
        take = min(8 - lo, bits - got)
        x = ELEM(seq, K(byte), Types.u8)
        if lo:
            x = BIN("Shr", x, K(lo), Types.u8)
        if take < 8 - lo:
            x = BIN("And", x, K((1 << take) - 1), Types.u8)
        parts.append(lmul(x, K(1 << got)))
        got += take
    return ladd(parts)


def bit_write(I, seq, off, bits, v):
    done = 0
    while done < bits:
        byte, lo = divmod(off + done, 8)
        take = min(8 - lo, bits - done)
        x = ELEM(seq, K(byte), Types.u8)
        mask = ((1 << take) - 1) << lo
        keep = BIN("And", x, K(255 & ~mask), Types.u8)
        part = v
        if done:
            part = BIN("Shr", part, K(done), Types.u8)
        part = BIN("And", part, K((1 << take) - 1), Types.u8)
        part = lmul(part, K(1 << lo))
        nb = BIN("Or", keep, part, Types.u8)
        seq = I.store_elem(seq, K(byte), nb)
        done += take
    return seq


# ------------------------------------------------------------------ integers
def int_method(I, name, ity, argv, argt, st, dty, line):
    w, signed = INT[ity]
    ty = I.p.tname.get(ity)
    if ty is None:
        return None
    lo, hi = trange(ty)
    a = argv[0]
    b = argv[1] if len(argv) > 1 else None
    if name in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        u = TRUNC(8 * w, False, a)
        bs = [BYTE(u, w, i) for i in range(w)]
        if name != "to_be_bytes":
            bs.reverse()
        return AGG(dty, None, bs), st
    if name in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        return from_bytes(I, a, w, "be" if name == "from_be_bytes" else "le", signed), st
    op = None
    m = re.match(r"^(wrapping|saturating|checked|overflowing)_(add|sub|mul|neg|shl|shr|div|rem)$", name)
    if m:
        mode, o = m.groups()
        if o in ("add", "sub", "mul"):
            x = I.arith_exact(o.capitalize(), a, b, ty)
            if x.op in ("top", "bot"):
                return x, st
            if mode == "wrapping":
                return to_type(x, ty), st
            over = GE0(lsub(lsub(x, K(hi)), K(1)))
            under = GE0(lsub(lsub(K(lo), K(1)), x))
            for cnd, truth in ((over, None), (under, None)):
                pass
            if I.decide(st.pc, over) is False:
                over = FALSE
            if I.decide(st.pc, under) is False:
                under = FALSE
            if mode == "saturating":
                return ITE(over, K(hi), ITE(under, K(lo), x)), st
            bad = OR(over, under)
            if mode == "checked":
                return ITE(bad, opt_none(dty), opt_some(dty, x)), st
            return AGG(dty, None, [to_type(x, ty), bad]), st
        if o in ("shl", "shr") and mode == "wrapping":
            return I.arith(o.capitalize(), a, b, ty, ty), st
        if o in ("shl", "shr") and mode == "checked":
            ok = GE0(lsub(K(8 * w - 1), b))
            return ITE(ok, opt_some(dty, I.arith(o.capitalize(), a, b, ty, ty)), opt_none(dty)), st
        if o in ("div", "rem") and mode == "checked" and not signed:
            return ITE(EQ(b, K(0)), opt_none(dty), opt_some(dty, BIN(o.capitalize(), a, b, ty))), st
        return None
    if name in ("cast_signed", "cast_unsigned"):
        return to_type(a, dty), st
    if name == "div_ceil":
        if not signed and isk(b) and b.a[0] > 0:
            return BIN("Div", ladd([a, K(b.a[0] - 1)]), b, None), st
        return None
    if name == "next_multiple_of" and not signed and isk(b) and b.a[0] > 0:
        k = b.a[0]
        v = lmul(BIN("Div", ladd([a, K(k - 1)]), K(k), None), K(k))
        if rng(v)[1] > hi:          # the last multiple that fits
            g = lsub(K(hi // k * k), a)
            if not I.implied(st.pc, g):
                I.event("overflow", ("Add", a, b, None, g), st)
        return to_type(v, ty), st
    if name == "is_multiple_of" and isk(b) and b.a[0] > 0:
        return EQ(BIN("Rem", a, b, ty), K(0)), st
    if name == "pow" and isk(a) and isk(b):
        return to_type(K(a.a[0] ** b.a[0]), ty), st
    if name in ("min_value", "max_value"):
        return K(lo if name == "min_value" else hi), st
    if name == "abs_diff":
        g = GE0(lsub(a, b))
        return ITE(g, lsub(a, b), lsub(b, a)), st
    if name == "unsigned_abs" or name == "abs":
        g = GE0(a)
        return ITE(g, a, lmul(K(-1), a)), st
    if name in ("rotate_left", "rotate_right", "swap_bytes", "reverse_bits", "to_be", "to_le", "count_ones", "leading_zeros", "trailing_zeros",
                "count_zeros", "leading_ones", "trailing_ones", "is_power_of_two", "ilog2", "isqrt", "signum", "rem_euclid", "div_euclid",
                "swap_bytes", "from_be", "from_le"):
        if name in ("to_le", "from_le"):
            return a, st
        return mk("fun", (ity + "::" + name,) + tuple(argv), dty), st
    return None


def from_bytes(I, arr, width, endian, signed):
    xs = [ELEM(arr, K(i)) for i in range(width)]
    if endian == "le":
        xs.reverse()
    v = CAT(xs)
    if v.op == "top":
        return v
    return TRUNC(8 * width, True, v) if signed else v


def convert(I, v, sty, dty):
    """From/Into between integers, bool, floats: (value) or None"""
    s, d = tinfo(sty), tinfo(dty)
    if sty == dty:
        return v
    if d.get("k") == "int" and s.get("k") in ("int", "bool", "char"):
        return v
    if d.get("k") == "float" and s.get("k") in ("int", "bool"):
        return mk("fcast", ("IntToFloat", v, s.get("name")), dty)
    if d.get("k") == "float" and s.get("k") == "float":
        return mk("fcast", ("FloatToFloat", v, s.get("name")), dty)
    return None


def try_int(I, v, sty, dty_int, res_ty, st):
    lo, hi = trange(dty_int)
    a = GE0(lsub(K(hi), v))
    b = GE0(lsub(v, K(lo)))
    for x in (a, b):
        if x.op == "top":
            return x
    if I.decide(st.pc, a) is True:
        a = TRUE
    if I.decide(st.pc, b) is True:
        b = TRUE
    ok = AND(a, b)
    ety = None
    vs = tinfo(res_ty).get("variants") or []
    for w in vs:
        if w["name"] == "Err" and w["fields"]:
            ety = w["fields"][0]["ty"]
    return ITE(ok, res_ok(res_ty, v), res_err(res_ty, mk("opaque", ("TryFromIntError",), ety)))


# ------------------------------------------------------------------ dispatch
PANICS = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic", "std::result::unwrap_failed", "core::result::unwrap_failed",
          "std::option::unwrap_failed", "core::option::", "std::option::expect_failed", "core::slice::index::slice_", "std::process::abort",
          "std::process::exit", "alloc::alloc::handle_alloc_error", "core::str::slice_error_fail", "bytes::panic_")


def deep_eq(I, st, a, b, ta, tb):
    """structural equality of two values, as a 0/1 node"""
    for _ in range(4):
        if tinfo(ta).get("k") == "ref" or a.op == "ref":
            a = I.load(st, a) if a.op == "ref" else I.deref(st, a)
            ta = tinfo(ta).get("of")
        else:
            break
    for _ in range(4):
        if tinfo(tb).get("k") == "ref" or b.op == "ref":
            b = I.load(st, b) if b.op == "ref" else I.deref(st, b)
            tb = tinfo(tb).get("of")
        else:
            break
    if a.op in ("top", "bot"):
        return a
    if b.op in ("top", "bot"):
        return b
    t = tinfo(ta)
    if t.get("k") in ("int", "bool", "char"):
        return EQ(a, b)
    if t.get("k") == "float":
        return mk("fcmp", ("Eq", a, b))
    if a is b and not has_float(ta):
        return TRUE
    if t.get("k") == "array" and t.get("len") is not None and t["len"] <= 64:
        v = TRUE
        for j in reversed(range(t["len"])):
            v = AND(deep_eq(I, st, ELEM(a, K(j)), ELEM(b, K(j)), t["of"], t["of"]), v)
        return v
    if t.get("k") == "tuple" and ta == tb:
        v = TRUE
        for j, e in reversed(list(enumerate(t["elems"]))):
            v = AND(deep_eq(I, st, FLD(a, None, j, e), FLD(b, None, j, e), e, e), v)
        return v
    if t.get("k") == "adt" and t.get("akind") == "enum" and all(not v["fields"] for v in t.get("variants") or [1]):
        f = eq_impl(I, ta)
        if f is not None and f.get("derived"):
            return EQ(DISCR(a), DISCR(b))
    if t.get("k") == "adt":
        f = eq_impl(I, ta)
        if f is not None and f["id"] in I.p.fns and ta == tb:
            r, s2 = I.call_inst(f["id"], [I.ref_to(st, a), I.ref_to(st, b)], st.copy())
            if r is not None and r.op not in ("top", "bot"):
                return r
    x, y = sorted((a, b), key=lambda n: n.id)
    return mk("fun", ("eq", x, y))


def has_float(t, d=0):
    i = tinfo(t)
    if i.get("k") == "float":
        return True
    if d > 4:
        return True
    if i.get("k") in ("array", "slice", "ref"):
        return has_float(i.get("of"), d + 1)
    if i.get("k") in ("int", "bool", "char", "str"):
        return False
    return any(has_float(f["ty"], d + 1) for v in (i.get("variants") or []) for f in v["fields"]) or i.get("k") not in ("adt", "tuple")


def default_of(I, t, st):
    i = tinfo(t)
    k = i.get("k")
    if k in ("int", "bool", "char"):
        return K(0)
    if k == "float":
        return mk("float", (0,), t)
    if k == "tuple":
        if not i["elems"]:
            return UNIT
        xs = [default_of(I, e, st) for e in i["elems"]]
        return None if any(x is None for x in xs) else AGG(t, None, xs)
    if k == "array" and i.get("len") is not None and i["len"] <= 512:
        e = default_of(I, i["of"], st)
        return None if e is None else AGG(t, None, [e] * i["len"])
    if is_vec(t) or is_string(t):
        return mk("seq", ())
    if is_opt(t):
        return opt_none(t)
    return None


def require(I, st, cond, what, line):
    """obligation: the condition holds; afterwards it is assumed"""
    if cond.op in ("bot", "top"):
        return cond.op != "bot"
    if cond is TRUE or I.decide(st.pc, cond) is True:
        return True
    I.event(what[0], what[1:] + (cond,), st, line)
    return I.assume(st, cond, True)


def char_boundary(I, st, v, n, line):
    """byte offset n of the text v must not lie inside a character"""
    if v.op in ("bytes",) and all(x < 128 for x in v.a[0]) or v.op == "seq" and all(k == "1" and isk(x) and x.a[0] < 128 for k, x in v.a):
        return True
    ln = LEN(v)
    return require(I, st, OR(GE0(lmul(K(-1), n)), GE0(lsub(n, ln))), ("charb", n, v), line)


def preconditions(I, d, name, argv, argt, st, dty, line):
    """the panics of library calls that are modelled by their results; False when no path is left"""
    pre = lambda g, *xs: g.op == "top" or I.need(st, g, ("misuse", name) + xs, line)
    lib = d.startswith(("std::", "core::", "alloc::", "<"))
    if not argv or not lib:
        return True
    t0 = argt[0]
    while tinfo(t0).get("k") == "ref":
        t0 = tinfo(t0)["of"]
    k0 = tinfo(t0).get("k")
    text = k0 == "str" or (tinfo(t0).get("path") or "").endswith("string::String")
    seqlike = k0 in ("slice", "array", "str") or is_vec(t0) or text
    if len(argv) > 1 and seqlike and tinfo(argt[1]).get("k") == "int":
        if name in ("chunks", "chunks_exact", "chunks_mut", "rchunks", "rchunks_exact", "windows", "as_chunks", "chunks_exact_mut"):
            return pre(lsub(argv[1], K(1)), argv[1])
        v = None
        if name in ("split_at", "split_at_mut", "split_off", "rotate_left", "rotate_right", "remove", "swap_remove", "insert", "truncate", "swap"):
            v = as_seq(I, st, argv[0])
            if v.op in ("buf", "top", "bot"):
                return True
            n = LEN(v)
        if name in ("split_at", "split_at_mut", "split_off", "rotate_left", "rotate_right", "insert") and not (name == "insert" and len(argv) < 3):
            if not pre(lsub(n, argv[1]), argv[1], n):
                return False
        elif name in ("remove", "swap_remove"):
            if not pre(lsub(lsub(n, argv[1]), K(1)), argv[1], n):
                return False
        elif name == "swap" and len(argv) == 3:
            if not (pre(lsub(lsub(n, argv[1]), K(1)), argv[1], n) and pre(lsub(lsub(n, argv[2]), K(1)), argv[2], n)):
                return False
        if text and name in ("split_at", "split_at_mut", "split_off", "insert", "truncate", "remove"):
            return char_boundary(I, st, v, argv[1], line)
        return True
    if name == "drain" and (is_vec(t0) or text) and len(argv) > 1:
        v = as_seq(I, st, argv[0])
        if v.op in ("buf", "top", "bot"):
            return True
        n = LEN(v)
        b = bounds_of(I, st, argv[1], argt[1], n)
        if b is not None:
            for g in b[2]:
                if not pre(g, argv[1], n):
                    return False
            if text:
                return char_boundary(I, st, v, b[0], line) and char_boundary(I, st, v, ladd([b[0], b[1]]), line)
        return True
    if name == "with_capacity" and k0 == "int":
        w = (esize(dty) or 1) if is_vec(dty) else 1
        return pre(lsub(K(((1 << 63) - 1) // max(w, 1)), argv[0]), argv[0])
    if name == "from_elem" and len(argv) > 1:
        w = tinfo(argt[0]).get("size") or 1
        return pre(lsub(K(((1 << 63) - 1) // max(w, 1)), argv[1]), argv[1])
    if name == "step_by" and len(argv) > 1:
        return pre(lsub(argv[1], K(1)), argv[1])
    if name == "clamp" and len(argv) == 3:
        if k0 == "int":
            return pre(lsub(argv[2], argv[1]), argv[1], argv[2])
        if k0 == "float":
            return require(I, st, mk("fcmp", ("Le", argv[1], argv[2])), ("misuse0", name, argv[1], argv[2]), line)
        return True
    if name in ("from_secs_f32", "from_secs_f64") and k0 == "float":
        w = tinfo(argt[0]).get("bits", 64) // 8
        import ev
        zero, top = mk("float", (0,), argt[0]), mk("float", (ev._pack(1.8446744e19, w),), argt[0])
        return require(I, st, AND(mk("fcmp", ("Le", zero, argv[0])), mk("fcmp", ("Lt", argv[0], top))), ("misuse0", name, argv[0]), line)
    if name in ("from_digit", "to_digit", "is_digit") and "char" in d and len(argv) > 1:
        return pre(lsub(K(36), argv[1]), argv[1])
    m = re.search(r"impl ([ui](?:8|16|32|64|128|size))>::(\w+)$", d)
    if m:
        w, signed = INT[m.group(1)]
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        a = argv[0]
        b = argv[1] if len(argv) > 1 else None
        if name in ("abs", "strict_abs") and signed:
            g = lsub(a, K(lo + 1))
            return g.op == "top" or I.need(st, g, ("overflow", "Abs", a, a, None), line)
        if name in ("ilog2", "ilog10", "ilog"):
            return pre(lsub(a, K(1)), a) and (name != "ilog" or b is None or pre(lsub(b, K(2)), b))
        if name in ("isqrt",) and signed:
            return pre(a, a)
        if name == "next_power_of_two":
            g = lsub(K(1 << (8 * w - 1)), a)
            return g.op == "top" or I.need(st, g, ("overflow", "NextPowerOfTwo", a, a, None), line)
        if name in ("div_ceil", "next_multiple_of", "div_euclid", "rem_euclid", "div_floor", "wrapping_div", "wrapping_rem", "overflowing_div", "overflowing_rem", "saturating_div",
                    "wrapping_div_euclid", "wrapping_rem_euclid"):
            return require(I, st, NOT(EQ(b, K(0))), ("div0", a), line)
        if name == "pow" and b is not None and not (isk(a) and isk(b)):
            if isk(b) and b.a[0] <= 8:
                x = K(1)
                for _ in range(b.a[0]):
                    x = lmul(x, a)
                for g in (lsub(K(hi), x),) + ((lsub(x, K(lo)),) if signed else ()):
                    if g.op == "top":
                        I.event("overflow?", ("Pow", a, b, None), st, line)
                    elif not I.need(st, g, ("overflow", "Pow", a, b, None), line):
                        return False
                return True
            if isk(a) and a.a[0] > 1:
                e = 0
                while a.a[0] ** (e + 1) <= hi:
                    e += 1
                g = lsub(K(e), b)
                return g.op == "top" or I.need(st, g, ("overflow", "Pow", a, b, None), line)
            I.event("overflow?", ("Pow", a, b, None), st, line)
            return True
    return True


def dispatch(I, c, argv, argt, st, dty, line):
    d = c["def"]
    name = d.split("::")[-1]
    if not (c.get("inst") is not None and c["inst"] in I.p.fns) and not preconditions(I, d, name, argv, argt, st, dty, line):
        return None, None
    tr = c.get("trait") or ""
    args = c.get("args") or []
    rdef = c.get("rdef") or d
    # a body we analyse ourselves takes precedence, except for the ones modelled on purpose
    local = c.get("inst") is not None and c["inst"] in I.p.fns
    # ---- panics
    if any(d.startswith(p) for p in PANICS) and not local and tinfo(dty).get("k") in ("never", None) or name in ("unwrap_failed", "expect_failed", "panic_fmt", "assert_failed", "panic_nounwind", "panic_display", "begin_panic", "panic_explicit", "unreachable_display", "panic") and "panick" in d or name in ("unwrap_failed", "expect_failed"):
        msg = ""
        for a in argv:
            x = through(I, st, a)
            if x.op == "bytes":
                msg = bytes(x.a[0]).decode("utf8", "replace")
                break
            if x.op == "seq" and all(p[1].op == "k" for p in x.a):
                msg = bytes(p[1].a[0] for p in x.a).decode("utf8", "replace")
                break
        I.event("panic", (name, msg), st, line)
        return None, None
    if name in ("abort", "exit") and "process" in d:
        I.event("panic", (name, ""), st, line)
        return None, None
    # ---- function values
    if tr.endswith(("ops::FnOnce", "ops::FnMut", "ops::Fn")) or d in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
        if name in ("call_once", "call_mut", "call"):
            f = argv[0]
            tup = argv[1]
            tt = tinfo(argt[1])
            n = len(tt.get("elems") or [])
            if tup.op == "agg":
                xs = list(tup.a[1])
            elif n == 0:
                xs = []
            else:
                xs = [FLD(tup, None, j, tt["elems"][j]) for j in range(n)]
            if f.op in ("agg", "ref", "fnval", "fnptr"):
                return I.call_value(f, xs, tt.get("elems"), st, dty, line)
            ft = tinfo(argt[0])
            if ft.get("k") == "fndef":
                return I.call_ref(ft["callee"], xs, tt.get("elems"), st, dty, line)
            return None
    # ---- modular-bitfield accessors
    if "modular_bitfield" in d and name in ("read_specifier", "write_specifier"):
        t = args[0] if args and isinstance(args[0], int) else None
        bits = spec_bits(I, t)
        if bits is None:
            I.note("specifier width")
            return None
        r = innermost(I, st, argv[0])
        seq = I.load(st, r)
        off = argv[1]
        if not isk(off):
            return None
        if name == "read_specifier":
            return bit_read(seq, off.a[0], bits), st
        v = argv[2]
        nv = bit_write(I, seq, off.a[0], bits, v)
        if r.op == "ref":
            I.store(st, r.a[0], r.a[1], nv)
        return UNIT, st
    if "modular_bitfield" in d and name in ("from_bytes", "into_bytes") and not local:
        t = tinfo(args[0]) if args and isinstance(args[0], int) else {}
        v = argv[0]
        if name == "from_bytes":
            return res_ok(dty, v), st
        return res_ok(dty, v), st
    if name == "new" and "InvalidBitPattern" in d:
        return AGG(dty, 0, list(argv)) if tinfo(dty).get("variants") else TOP("ibp"), st
    # ---- buffers
    if is_bytesbuf(dty) and not local and name in ("new", "with_capacity", "default") and "BytesMut" in (tinfo(dty).get("path") or ""):
        if name == "with_capacity":
            I.event("alloc", ("with_capacity", argv[0], 1), st, line)
        c = I.new_buf(st, "w")
        I.bufs[c]["fresh"] = True
        return mk("buf", (c, "w"), dty), st
    if argv and "bytes::" in d and name == "freeze" and argv[0].op == "buf" and I.bufs.get(argv[0].a[0], {}).get("fresh"):
        return argv[0], st
    if argv and "bytes::" in d and name in ("into_inner", "limit", "get_ref", "get_mut"):
        tk = I.find_take(st, argv[0])
        if tk is not None:
            if name == "into_inner":
                return tk.a[3], st
            if name == "limit":
                return MINMAX("max", lsub(ladd([tk.a[1], tk.a[2]]), I.consumed(st, tk.a[0])), K(0)), st
            return I.ref_to(st, tk.a[3]), st
    if argv and (tr in ("bytes::Buf", "bytes::BufMut") or d.startswith(("bytes::Buf::", "bytes::BufMut::"))):
        return buf_call(I, name, argv, argt, st, dty, line)
    if argv and not local:
        t0 = argt[0]
        for _ in range(3):
            if tinfo(t0).get("k") == "ref":
                t0 = tinfo(t0)["of"]
        if is_bytesbuf(t0) and argv[0].op == "ref":
            b = I.find_buf(st, argv[0])
            if b is not None:
                return buf_call(I, name, argv, argt, st, dty, line)
    if name in ("iter", "iter_mut", "into_iter") and argt and (is_opt(argt[0]) or tinfo(argt[0]).get("k") == "ref" and is_opt(tinfo(argt[0])["of"])):
        it = make_iter(I, st, argv[0], argt[0])
        if it is not None:
            return it, st
    if local and not _force(d, name):
        return None
    # ---- chrono
    if d.startswith("chrono::") or "chrono::" in rdef:
        if name == "now":
            u = fresh()
            I.event("clock", (u,), st, line)
            return mk("clock", ("now", u) + (("local",) if "Local" in d + rdef + str(tinfo(dty).get("name")) else ()), dty), st
        if name in ("minute", "second", "nanosecond", "hour", "timestamp_subsec_nanos", "timestamp_subsec_micros", "timestamp_subsec_millis"):
            x = through(I, st, argv[0])
            nm = {"timestamp_subsec_nanos": "subsec_nanos", "timestamp_subsec_micros": "subsec_micros", "timestamp_subsec_millis": "subsec_millis"}.get(name, name)
            return mk("clock", (nm, x), dty), st
        if name in ("timestamp", "timestamp_micros", "timestamp_millis"):
            x = through(I, st, argv[0])
            return mk("clock", (name, x), dty), st
        if name in ("time", "naive_utc", "date_naive"):
            return through(I, st, argv[0]), st
        return None
    if d.startswith(("std::time::", "core::time::")):
        if name == "now":
            u = fresh()
            I.event("clock", (u,), st, line)
            return mk("clock", ("now", u), dty), st
        return None
    # ---- iterators
    if tr.endswith(("iter::Iterator", "iter::IntoIterator", "iter::DoubleEndedIterator", "iter::ExactSizeIterator")):
        r = iter_call(I, c, name, argv, argt, st, dty, line)
        if r is not None:
            return r
        return None
    if name in ("iter", "iter_mut") and (d.startswith("core::slice::") or d.startswith("std::slice::") or "array" in d or "vec" in d):
        r = innermost(I, st, argv[0])
        x = I.load(st, r)
        return IT(itd("slice", r), LEN(x)), st
    if name in ("chunks", "chunks_exact", "array_chunks") and "slice" in d:
        r = innermost(I, st, argv[0])
        n = LEN(I.load(st, r))
        if isk(argv[1]) and isk(n) and (name == "chunks_exact" or n.a[0] % argv[1].a[0] == 0):
            return IT(itd("chunks", r, argv[1]), K(n.a[0] // argv[1].a[0])), st
        if isk(argv[1]) and argv[1].a[0] > 0 and name == "chunks":
            k = argv[1].a[0]
            return IT(itd("chunks", r, argv[1], n), BIN("Div", ladd([n, K(k - 1)]), argv[1], I.p.usize)), st
        if isk(argv[1]) and name == "chunks_exact":
            return IT(itd("chunks", r, argv[1]), BIN("Div", n, argv[1], I.p.usize)), st
        return None
    if d in ("std::iter::repeat_with", "core::iter::repeat_with", "std::iter::repeat", "core::iter::repeat"):
        return IT(itd("rw" if name == "repeat_with" else "once", argv[0]), K(1 << 64)), st
    if d in ("std::iter::once", "core::iter::once"):
        return IT(itd("once", argv[0]), K(1)), st
    # ---- arrays made element by element
    if name in ("map", "from_fn") and "array" in d and tinfo(dty).get("k") == "array" and isk(LEN(IN("", dty))) and LEN(IN("", dty)).a[0] <= 600:
        xs = []
        for j in range(LEN(IN("", dty)).a[0]):
            if name == "map":
                x, st = I.call_value(argv[1], [ELEM(argv[0], K(j))], [None], st, None, line)
            else:
                x, st = I.call_value(argv[0], [K(j)], [None], st, None, line)
            if st is None:
                return None, None
            xs.append(x)
        return AGG(dty, None, xs), st
    # ---- indexing
    if tr.endswith(("ops::Index", "ops::IndexMut")) and name in ("index", "index_mut"):
        return index_call(I, argv, argt, st, dty, line)
    # ---- deref / borrow / as_ref
    if name in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "as_bytes", "as_str", "as_bytes_mut", "unsize") and len(argv) == 1:
        t0 = tinfo(argt[0])
        if t0.get("k") == "ref":
            o = t0["of"]
            if (tinfo(o).get("path") or "").endswith("borrow::Cow") and name in ("deref", "as_ref", "borrow"):
                r = innermost(I, st, argv[0])
                x = I.load(st, r) if r.op == "ref" else I.deref(st, r)
                if x.op == "lossy":
                    return I.ref_to(st, x), st
            if is_vec(o) or is_string(o) or tinfo(o).get("k") in ("array", "slice") or tinfo(o).get("path", "").endswith("boxed::Box"):
                return innermost(I, st, argv[0]), st
            if tinfo(o).get("k") == "ref":
                return innermost(I, st, argv[0]), st
            if (tinfo(o).get("path") or "").split("::")[-1] in ("Bytes", "BytesMut") and argv[0].op == "ref":
                r = innermost(I, st, argv[0])
                if I.load(st, r).op in ("seq", "slice", "map", "getseq", "bytes", "repeat", "flat"):
                    return r, st
    # ---- Vec / String / slices
    r = seq_call(I, d, name, tr, argv, argt, args, st, dty, line)
    if r is not None:
        return r
    # ---- integers
    m = re.search(r"impl ([ui](?:8|16|32|64|128|size))>::(\w+)$", d)
    if m:
        return int_method(I, m.group(2), m.group(1), argv, argt, st, dty, line)
    m = re.search(r"impl (f32|f64)>::(\w+)$", d)
    if m:
        n = m.group(2)
        if n == "to_bits":
            return TOBITS(argv[0]), st
        if n == "from_bits":
            return FROMBITS(4 if m.group(1) == "f32" else 8, argv[0], dty), st
        if n in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
            w = 4 if m.group(1) == "f32" else 8
            bs = [BYTE(TOBITS(argv[0]), w, i) for i in range(w)]
            if n != "to_be_bytes":
                bs.reverse()
            return AGG(dty, None, bs), st
        if n in ("from_be_bytes", "from_le_bytes"):
            w = 4 if m.group(1) == "f32" else 8
            return FROMBITS(w, from_bytes(I, argv[0], w, "be" if n == "from_be_bytes" else "le", False), dty), st
        return fun(m.group(1) + "::" + n, argv, dty), st
    # ---- traits on plain values
    if tr.endswith("default::Default") and name == "default":
        t = dty
        v = default_of(I, t, st)
        return (v, st) if v is not None else None
    if tr.endswith("clone::Clone") and name == "clone":
        x = I.load(st, argv[0]) if argv[0].op == "ref" else I.deref(st, argv[0])
        return clone_value(I, x, dty, st, line)
    if tr.endswith("borrow::ToOwned") and name == "to_owned":
        x = I.load(st, argv[0]) if argv[0].op == "ref" else I.deref(st, argv[0])
        return x, st
    if tr.endswith("convert::From") and name == "from" or tr.endswith("convert::Into") and name == "into":
        v = convert(I, argv[0], argt[0], dty)
        if v is not None:
            return v, st
        if (is_vec(dty) or is_string(dty)):
            return as_seq(I, st, argv[0]), st
        i0 = tinfo(argt[0])
        if is_opt(dty) and (tinfo(dty)["args"] or [None])[0] == argt[0]:
            return opt_some(dty, argv[0]), st
        return None
    if name in ("try_from", "try_into") and (tr.endswith("convert::TryFrom") or tr.endswith("convert::TryInto")):
        vs = [w for w in tinfo(dty).get("variants") or [] if w["name"] == "Ok"]
        if vs and vs[0]["fields"]:
            ok_t = vs[0]["fields"][0]["ty"]
            if tinfo(ok_t).get("k") == "int" and tinfo(argt[0]).get("k") == "int":
                return try_int(I, argv[0], argt[0], ok_t, dty, st), st
            if tinfo(ok_t).get("k") == "array":
                seq = as_seq(I, st, argv[0])
                n = LEN(seq)
                want = tinfo(ok_t)["len"]
                ok = EQ(n, K(want))
                if ok is TRUE:
                    return res_ok(dty, AGG(ok_t, None, [ELEM(seq, K(j)) for j in range(want)])), st
                if ok is not FALSE and ok.op != "top" and want <= 64:
                    e_t = next(w for w in tinfo(dty)["variants"] if w["name"] == "Err")["fields"][0]["ty"]
                    return ITE(ok, res_ok(dty, AGG(ok_t, None, [ELEM(seq, K(j)) for j in range(want)])), res_err(dty, mk("opaque", ("TryFromSliceError",), e_t))), st
        return None
    if tr.endswith("cmp::PartialEq") and name in ("eq", "ne"):
        e = deep_eq(I, st, argv[0], argv[1], argt[0], argt[1])
        return (e if name == "eq" else NOT(e)), st
    if tr.endswith("cmp::PartialOrd") and name in ("lt", "le", "gt", "ge"):
        a, b = through(I, st, argv[0]), through(I, st, argv[1])
        t = argt[0]
        while tinfo(t).get("k") == "ref":
            t = tinfo(t)["of"]
        return I.arith({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], a, b, t, dty), st
    if tr.endswith("cmp::Ord") and name in ("min", "max") or d in ("std::cmp::min", "std::cmp::max", "core::cmp::min", "core::cmp::max"):
        a, b = argv
        if tinfo(argt[0]).get("k") == "int":
            g = lsub(a, b)
            if g.op in ("top", "bot"):
                return g, st
            if rng(g)[0] >= 0 or I.implied(st.pc, g):
                return (b if name == "min" else a), st
            if rng(g)[1] <= 0 or I.implied(st.pc, lsub(b, a)):
                return (a if name == "min" else b), st
            return mk(name, tuple(sorted((a, b), key=lambda x: x.id))), st
        return None
    if tr.endswith("cmp::Ord") and name == "clamp" and tinfo(argt[0]).get("k") == "int":
        a, lo, hi = argv
        v, _ = mk("max", tuple(sorted((a, lo), key=lambda x: x.id))) if not rng(lsub(a, lo))[0] >= 0 else a, None
        v = v if rng(lsub(hi, v))[0] >= 0 else mk("min", tuple(sorted((v, hi), key=lambda x: x.id)))
        return v, st
    if tr.endswith("cmp::Ord") and name == "cmp" or tr.endswith("cmp::PartialOrd") and name == "partial_cmp":
        t = argt[0]
        while tinfo(t).get("k") == "ref":
            t = tinfo(t)["of"]
        if tinfo(t).get("k") == "int" and name == "cmp":
            return I.arith("Cmp", through(I, st, argv[0]), through(I, st, argv[1]), t, dty), st
        return fun(name, [through(I, st, a) for a in argv], dty), st
    if tr.startswith(("std::ops::", "core::ops::")) and name in ("add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr", "not", "neg"):
        t = argt[0]
        if tinfo(t).get("k") == "ref" and tinfo(tinfo(t)["of"]).get("k") in ("int", "float", "bool"):
            argv = [through(I, st, a) for a in argv]
            t = tinfo(t)["of"]
        if tinfo(t).get("k") in ("int", "float", "bool"):
            o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}.get(name)
            if o:
                if o in ("Add", "Sub", "Mul") and tinfo(t).get("k") == "int":
                    v = I.arith_exact(o, argv[0], argv[1], t)
                    lo, hi = trange(t)
                    for g in (lsub(v, K(lo)), lsub(K(hi), v)):
                        if not I.need(st, g, ("overflow", o, argv[0], argv[1], t), line):
                            return None, None
                return I.arith(o, argv[0], argv[1], t, dty), st
            if name == "not":
                if tinfo(t).get("k") == "bool":
                    return NOT(argv[0]), st
                if not tinfo(t).get("signed"):
                    return lsub(K(trange(t)[1]), argv[0]), st
                return lsub(K(-1), argv[0]), st
    if tr.startswith(("std::ops::", "core::ops::")) and name.endswith("_assign"):
        t = argt[0]
        if tinfo(t).get("k") == "ref" and argv[0].op == "ref":
            of = tinfo(t)["of"]
            if tinfo(of).get("k") in ("int", "float", "bool"):
                o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}.get(name[:-7])
                cur = I.load(st, argv[0])
                rhs = through(I, st, argv[1])
                if o:
                    if o in ("Add", "Sub", "Mul") and tinfo(of).get("k") == "int":
                        v = I.arith_exact(o, cur, rhs, of)
                        lo, hi = trange(of)
                        for g in (lsub(v, K(lo)), lsub(K(hi), v)):
                            if not I.need(st, g, ("overflow", o, cur, rhs, of), line):
                                return None, None
                    I.store(st, argv[0].a[0], argv[0].a[1], I.arith(o, cur, rhs, of, of))
                    return UNIT, st
    # ---- ranges
    if name == "new" and "RangeInclusive" in d:
        return AGG(dty, 0, [argv[0], argv[1], FALSE]), st
    if name == "contains" and "Range" in d:
        r = through(I, st, argv[0])
        x = through(I, st, argv[1])
        nm = tinfo(tinfo(argt[0]).get("of")).get("path", "").split("::")[-1]
        if r.op == "agg" and tinfo(tinfo(argt[1]).get("of")).get("k") == "int":
            f = r.a[1]
            lo = GE0(lsub(x, f[0]))
            if nm == "RangeInclusive":
                return AND(lo, GE0(lsub(f[1], x))), st
            if nm == "Range":
                return AND(lo, GE0(lsub(lsub(f[1], x), K(1)))), st
            if nm == "RangeFrom":
                return lo, st
        return None
    # ---- formatting: opaque, pure
    if d.startswith(("core::fmt", "std::fmt", "alloc::fmt")) or tr.endswith(("fmt::Display", "fmt::Debug", "fmt::Write", "string::ToString")) or name in ("must_use",) or d.startswith("thiserror::") or tr.startswith(("std::fmt::", "core::fmt::")):
        if name == "must_use":
            return argv[0], st
        if name == "to_string" or d.endswith("fmt::format"):
            return fun("text", [strip_refs(I, st, a) for a in argv], dty), st
        return fun("fmt:" + name, [strip_refs(I, st, a) for a in argv], dty), st
    if name in ("unimplemented_default_msg",):
        return fun(name, [], dty), st
    if name == "from_digit" and "char" in d and is_opt(dty):
        return ITE(GE0(lsub(lsub(argv[1], argv[0]), K(1))), opt_some(dty, fun("lib:" + d, list(argv), tinfo(dty)["args"][0])), opt_none(dty)), st
    if name == "from_u32" and "char" in d and is_opt(dty):
        x = argv[0]
        ok = OR(GE0(lsub(K(0xD7FF), x)), AND(GE0(lsub(x, K(0xE000))), GE0(lsub(K(0x10FFFF), x))))
        return ITE(ok, opt_some(dty, x), opt_none(dty)), st
    if name == "new" and "NonZero" in d and is_opt(dty):
        return ITE(EQ(argv[0], K(0)), opt_none(dty), opt_some(dty, fun("lib:" + d, list(argv), tinfo(dty)["args"][0]))), st
    if name in ("drop", "forget") and d.startswith(("std::mem", "core::mem")):
        return UNIT, st
    if name == "black_box":
        return argv[0], st
    if name in ("size_of", "align_of") and args and isinstance(args[0], int):
        s = tinfo(args[0]).get("size")
        if s is not None and name == "size_of":
            return K(s), st
    if name == "size_of_val" and args and isinstance(args[0], int):
        i = tinfo(args[0])
        if i.get("size") is not None:
            return K(i["size"]), st
        if i.get("k") in ("slice", "str"):
            s = tinfo(i["of"]).get("size") if i["k"] == "slice" else 1
            if s is not None:
                return lmul(K(s), LEN(as_seq(I, st, argv[0]))), st
    if name in ("cold_path", "assert_inhabited", "assert_zero_valid", "likely", "unlikely", "assume"):
        return (argv[0] if argv else UNIT), st
    if name == "type_id" or d.endswith("TypeId::of"):
        return fun("type_id", [mk("tymark", (), a) for a in args if isinstance(a, int)], dty), st
    if tr.endswith("hash::Hash") or tr.endswith("error::Error"):
        I.havoc_args(argv, argt, st, d)
        return fun(name, [strip_refs(I, st, a) for a in argv], dty), st
    return None


def _force(d, name):
    return False


def fun(name, args, ty):
    for a in args:
        if a.op == "bot":
            return a
    return mk("fun", (name,) + tuple(args), ty)


def strip_refs(I, st, a):
    x = through(I, st, a) if a.op == "ref" else a
    if x.op == "buf":
        return mk("opaque", ("buf",))
    if x.op == "agg":
        return mk("agg", (x.a[0], tuple(strip_refs(I, st, y) for y in x.a[1])), x.ty) if any(y.op == "ref" for y in x.a[1]) else x
    if x.op == "seq":
        return mk("seq", tuple((k, strip_refs(I, st, y)) for k, y in x.a))
    return x


def clone_value(I, x, dty, st, line):
    t = tinfo(dty)
    return x, st


SEQPATH = re.compile(r"(^|[<:& ])(std|core|alloc)::(vec|slice|string|str|array|boxed)")


def seq_call(I, d, name, tr, argv, argt, args, st, dty, line):
    if not SEQPATH.search(d) and not (tr.endswith("iter::Extend") and name == "extend"):
        return None
    if d.endswith("vec::from_elem"):
        I.event("alloc", ("from_elem", argv[1], (tinfo(argt[0]).get("size") or 1)), st, line)
        return REPEAT(argv[0], argv[1]), st
    if name == "new" and not argv and (is_vec(dty) or is_string(dty)):
        return mk("seq", ()), st
    if name == "with_capacity":
        I.event("alloc", ("with_capacity", argv[0], esize(dty) if is_vec(dty) else 1), st, line)
        return mk("seq", ()), st
    if name in ("into_bytes", "into_boxed_slice", "into_vec", "into_boxed_str", "into_string"):
        return argv[0], st
    if name in ("from_utf8_lossy", "from_utf8_lossy_owned"):
        return LOSSY(as_seq(I, st, argv[0])), st
    if name in ("into_owned",):
        return argv[0], st
    if name == "from_utf8" and tinfo(dty).get("variants"):
        v = as_seq(I, st, argv[0])
        if v.op in ("top", "bot"):
            return None
        ok = TRUE if is_string(v.ty) else fun("str:utf8", [v], I.p.tname.get("bool"))
        own = is_vec(argt[0])
        vs = next(w for w in tinfo(dty)["variants"] if w["name"] == "Err")
        return ITE(ok, res_ok(dty, v if own else (argv[0] if argv[0].op == "ref" else I.ref_to(st, v))), res_err(dty, mk("opaque", ("Utf8Error",), vs["fields"][0]["ty"]))), st
    if not argv:
        return None
    r = innermost(I, st, argv[0])
    if r.op != "ref":
        t0 = tinfo(argt[0])
        if t0.get("k") == "ref":
            v = I.deref(st, r)
        else:
            v = r
    else:
        v = I.load(st, r)
    if v.op == "buf":
        return None

    def put(x):
        if r.op == "ref":
            I.store(st, r.a[0], r.a[1], x)
        else:
            I.event("opaque-write", None, st, line)
    one = lambda x: ("1", x)
    if name == "len":
        return LEN(v), st
    if name == "is_empty":
        if is_string(argt[0]) and v.op in ("fun",):
            return fun("is_empty", [v], dty), st
        return EQ(LEN(v), K(0)), st
    if name == "push" and (is_vec(tinfo(argt[0]).get("of"))):
        put(SEQ([("n", v), one(argv[1])]))
        return UNIT, st
    if name in ("extend_from_slice", "push_str", "append", "extend"):
        w = argv[1]
        if name == "extend":
            it = w if w.op == "it" else make_iter(I, st, w, argt[1])
            if it is None or isinstance(it, tuple):
                return None
            rr = drive(I, st, it, line, lambda s, x: (I.load(s, x) if x.op == "ref" else x, s))
            if rr is None:
                return None
            if rr[0] == "div":
                return None, None
            if rr[0] == "const":
                st2 = rr[2]
                ext = SEQ([one(x) for x in rr[1]])
            else:
                st2 = rr[4]
                ext = MAP(rr[1], rr[2], rr[3])
            if r.op == "ref":
                I.store(st2, r.a[0], r.a[1], SEQ([("n", I.load(st2, r)), ("n", ext)]))
            return UNIT, st2
        x = as_seq(I, st, w)
        put(SEQ([("n", v), ("n", x)]))
        if name == "append":
            q = innermost(I, st, w)
            if q.op == "ref":
                I.store(st, q.a[0], q.a[1], mk("seq", ()))
        return UNIT, st
    if name == "clear":
        put(mk("seq", ()))
        return UNIT, st
    if name == "reserve" or name == "reserve_exact":
        I.event("alloc", ("reserve", argv[1], esize(tinfo(argt[0]).get("of"))), st, line)
        return UNIT, st
    if name in ("shrink_to_fit",):
        return UNIT, st
    if name == "resize":
        n = argv[1]
        I.event("alloc", ("resize", n, esize(tinfo(argt[0]).get("of"))), st, line)
        ln = LEN(v)
        g = lsub(n, ln)
        if rng(g)[0] >= 0 or I.implied(st.pc, g):
            put(SEQ([("n", v), ("n", REPEAT(argv[2], g))]))
        elif rng(g)[1] <= 0 or I.implied(st.pc, lsub(ln, n)):
            put(SLICE(v, K(0), n))
        else:
            put(ITE(GE0(g), SEQ([("n", v), ("n", REPEAT(argv[2], g))]), SLICE(v, K(0), n)))
        return UNIT, st
    if name == "truncate":
        n = argv[1]
        ln = LEN(v)
        g = lsub(ln, n)
        if rng(g)[0] >= 0 or I.implied(st.pc, g):
            put(SLICE(v, K(0), n))
        elif rng(g)[1] <= 0 or I.implied(st.pc, lsub(n, ln)):
            pass
        else:
            put(ITE(GE0(g), SLICE(v, K(0), n), v))
        return UNIT, st
    if name == "is_char_boundary" and len(argv) == 2:
        n = LEN(v)
        inside = fun("str:is_char_boundary", [strip_refs(I, st, v), argv[1]], dty)
        if isk(argv[1], 0) or argv[1] is n:
            return TRUE, st
        return AND(GE0(lsub(n, argv[1])), OR(EQ(lsub(n, argv[1]), K(0)), inside)), st
    if name == "copy_from_slice" or name == "clone_from_slice":
        x = as_seq(I, st, argv[1])
        g = lsub(LEN(v), LEN(x))
        for q in (g, lmul(K(-1), g) if g.op != "top" else g):
            if not I.need(st, q, ("slice", LEN(v), LEN(x)), line):
                return None, None
        ty = v.ty
        n = LEN(v)
        if isk(n) and tinfo(v.ty).get("k") == "array":
            x = AGG(v.ty, None, [ELEM(x, K(j)) for j in range(n.a[0])])
        put(x)
        return UNIT, st
    if name == "fill":
        n = LEN(v)
        if isk(n) and n.a[0] <= 512 and tinfo(v.ty).get("k") == "array":
            put(AGG(v.ty, None, [argv[1]] * n.a[0]))
        else:
            put(REPEAT(argv[1], n))
        return UNIT, st
    if name == "fill_with" and isk(LEN(v)) and LEN(v).a[0] <= 600 and tinfo(v.ty).get("k") == "array":
        xs = []
        for _ in range(LEN(v).a[0]):
            x, st = I.call_value(argv[1], [], [], st, None, line)
            if st is None:
                return None, None
            xs.append(x)
        put(AGG(v.ty, None, xs))
        return UNIT, st
    if name in ("to_vec", "to_owned", "to_string", "into_string") and (is_vec(dty) or is_string(dty)):
        return v, st
    if name in ("first", "last", "get", "get_mut", "first_mut", "last_mut"):
        n = LEN(v)
        if name in ("first", "first_mut"):
            ix = K(0)
        elif name in ("last", "last_mut"):
            ix = lsub(n, K(1))
        else:
            ix = argv[1]
            if tinfo(argt[1]).get("k") != "int":
                b = bounds_of(I, st, ix, argt[1], n)
                if b is None:
                    return None
                ok = TRUE
                for g in b[2]:
                    cnd = GE0(g)
                    if I.decide(st.pc, cnd) is True:
                        cnd = TRUE
                    ok = AND(ok, cnd)
                return ITE(ok, opt_some(dty, slice_ref(I, st, r, b[0], b[1])), opt_none(dty)), st
        ok = GE0(lsub(lsub(n, ix), K(1)))
        if I.decide(st.pc, ok) is True:
            ok = TRUE
        return ITE(ok, opt_some(dty, elem_ref(I, st, r, ix)), opt_none(dty)), st
    if name == "pop":
        n = LEN(v)
        ok = GE0(lsub(n, K(1)))
        if isk(n):
            if n.a[0] == 0:
                return opt_none(dty), st
            x = ELEM(v, K(n.a[0] - 1))
            put(SLICE(v, K(0), K(n.a[0] - 1)))
            return opt_some(dty, x), st
        return None
    if name == "split_at":
        n = LEN(v)
        return AGG(dty, None, [slice_ref(I, st, r, K(0), argv[1]), slice_ref(I, st, r, argv[1], lsub(n, argv[1]))]), st
    if name == "reverse":
        n = LEN(v)
        if isk(n) and n.a[0] <= 256:
            xs = [ELEM(v, K(n.a[0] - 1 - j)) for j in range(n.a[0])]
            put(AGG(v.ty, None, xs) if tinfo(v.ty).get("k") == "array" else SEQ([one(x) for x in xs]))
            return UNIT, st
        return None
    if name in ("trim", "trim_start", "trim_end", "strip_prefix", "split", "trim_end_matches", "trim_matches", "to_uppercase", "to_lowercase",
                "from_str_radix", "parse", "is_ascii", "chars", "contains", "starts_with", "ends_with", "is_char_boundary", "char_indices"):
        return fun("str:" + name, [strip_refs(I, st, a) for a in argv], dty), st
    if name == "capacity":
        return mk("cap", (strip_refs(I, st, argv[0]),), dty), st
    return None
