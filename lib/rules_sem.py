"""C05, C06, C18, C19, C20, C23: identity, acceptance, status bits, time, constructors, vectors."""
from base import *
import random
import math
from fractions import Fraction
import tables
from ev import Env, Dead, Undef
from units import norm
from rules_size import header_index, field, put_at, get_at, own_code
from rules_wire import is_enum, flat, _field


def ename(ty, d):
    return next((v["name"] for v in tinfo(ty).get("variants") or [] if v["discr"] == d), str(d))


# ------------------------------------------------------------------------------- C05
def fresh_header(cx, R, nm, p, fresh, hi, code):
    """the header of a fresh PDU: type, family and the length of its own encoding"""
    h = FLD(fresh, None, *hi)
    for fn, exp, what in (("pdu_type", code[0], "type"), ("protocol_family", code[1], "family")):
        x = field(h, fn)
        d = DISCR(x) if x is not None else None
        if d is None or d.op != "k":
            R.undecided(f"{nm}.new/{what}", show(d)[:100] if d is not None else "field not found", "constructor")
        elif d.a[0] != exp:
            R.viol(f"{nm}.new/{what}", where(p["new"]), f"{nm}::new gives the header {what} {ename(x.ty, d.a[0])} ({d.a[0]}) instead of {ename(x.ty, exp)} ({exp})", nm, "constructor")
        else:
            R.ok(f"new() has {what} {exp}", nm, "constructor")
    # the length of a fresh PDU
    rl = cx.run(p["calculate_length"])
    ln = field(h, "length")
    if rl.ret is None or ln is None:
        R.undecided(f"{nm}.new/length", "length not analysable", "constructor")
        return
    L = subst(rl.ret, {rl.selfv: fresh})
    oks = ok_leaves(L)
    if len(oks) != 1 or not oks[0][1].a[1]:
        R.undecided(f"{nm}.new/length", f"calculate_length of a new value: {show(L)[:120]}", "constructor")
        return
    L = simplify(oks[0][1].a[1][0], oks[0][0])
    if surely_equal(L, ln):
        R.ok("new() has its own length", nm, "constructor")
    else:
        d = differ(L, ln)
        if d:
            R.viol(f"{nm}.new/length", where(p["new"]), f"{nm}::new puts {show(ln)[:60]} into the header length; its encoding has {show(L)[:60]} octets", nm, "constructor")
        else:
            R.undecided(f"{nm}.new/length", f"{show(ln)[:80]} against {show(L)[:80]}", "constructor")


def c05(cx, R):
    R.rule("type and family octets of every encode equal the frozen code of the PDU's name; codes are pairwise distinct; new() carries the same type and family and its length field equals calculate_length "
           "of the value new() returns")
    codes = tables.load("pdu_codes")
    used = {}
    for nm in codes:
        if nm not in cx.pdus:
            R.viol(f"{nm}/gone", nm, f"PDU type {nm} no longer exists", nm, "pdu")
    for nm, p in sorted(cx.pdus.items()):
        code = codes.get(nm) or own_code(cx, p)
        if code is None:
            R.undecided(nm, "type code unknown", "pdu")
            continue
        hi = header_index(p["ty"])
        if hi is None:
            R.undecided(nm, "no header field", "pdu")
            continue
        r = cx.run(p["serialize"])
        for conds, _, toks in ok_path(r) if r.ret is not None else ():
            for off, exp, what in ((2, code[0], "type"), (3, code[1], "family")):
                v = put_at(toks, off, 1)
                v = simplify(v, conds) if v is not None else None
                if v is None or v.op != "k":
                    d = differ(v, K(exp), conds) if v is not None else None
                    if d:
                        R.viol(f"{nm}.serialize/{what}", where(p["serialize"]), f"{nm} is written with {what} {show(v)[:80]} instead of {exp} ({d})", nm, "pdu")
                    else:
                        R.undecided(f"{nm}.serialize/{what}", show(v)[:100] if v is not None else "octet not found", "pdu")
                elif v.a[0] != exp:
                    R.viol(f"{nm}.serialize/{what}", where(p["serialize"]), f"{nm} is written with {what} code {v.a[0]}; its code is {exp}", nm, "pdu")
                else:
                    R.ok(f"{what} {exp} on the wire", nm, "pdu")
                if what == "type" and v is not None and v.op == "k":
                    used.setdefault(v.a[0], set()).add(nm)
        f = p.get("new")
        if f is None or f["argc"]:
            R.undecided(f"{nm}.new", "constructor not found", "constructor")
            continue
        rn = cx.run(f)
        if rn.ret is None:
            R.undecided(f"{nm}.new", rn.err, "constructor")
            continue
        fresh_header(cx, R, nm, p, rn.ret, hi, code)
    for c, ns in sorted(used.items()):
        if len(ns) > 1:
            R.viol(f"code {c}", ", ".join(sorted(ns)), f"{' and '.join(sorted(ns))} share type code {c}", None, "uniqueness")
        else:
            R.ok(f"code {c} is used by one PDU", min(ns), "uniqueness")


# ------------------------------------------------------------------------------- C06
def hdr_decoder(cx, ty):
    it = cx.items.get(ty)
    if it is None:
        return None
    ds = [f for f in it.dec if (f.get("impl_trait") or "").endswith("GenericHeader")] or it.dec
    return ds[0] if ds else None


def reads_of(toks):
    return [t for t in flat(toks) if t[0] == "get"]


def c06(cx, R):
    R.rule("with the type octet (or the supplied header's type) set to any number that does not denote the PDU's own type, every leaf of the decoder's result is the invalid-header error (or underflow when "
           "the octets end early); with the own type no leaf is; every field of the decoded header equals that of the header decoder on the same octets, or the supplied header")
    codes = tables.load("pdu_codes")
    for nm, p in sorted(cx.pdus.items()):
        code = codes.get(nm) or own_code(cx, p)
        hi = header_index(p["ty"])
        if code is None or hi is None:
            R.undecided(nm, "type code or header unknown", "pdu")
            continue
        for which in ("deserialize", "deserialize_without_header"):
            f = p.get(which)
            if f is None:
                R.undecided(f"{nm}.{which}", "not found", "pdu")
                continue
            r = cx.run(f)
            if r.ret is None or r.toks is None:
                R.undecided(f"{nm}.{which}", r.err or "not analysable", "pdu")
                continue
            key = f"{nm}.{which}"
            hdr = None
            if which == "deserialize":
                T = None
                for conds, v, toks in ok_path(r):
                    g = get_at(toks, 2, 1)
                    if g is not None:
                        T = next((x for x in reach(r.ret) if x.op == "get" and x.a[0] == g.a[0]), None)
                if T is None:
                    # the accepted type is never looked at?
                    rd = hdr_reads(r)
                    if ok_path(r) and rd is not None and not has_get(r.ret, rd[2]):
                        R.viol(f"{key}/unchecked", where(f), f"{nm}::{which} never looks at the type octet: it accepts every PDU type", nm, "pdu")
                    else:
                        R.undecided(key, "type octet not found", "pdu")
                    continue
            else:
                hdr = next((a for a in r.args if (tinfo(a.ty).get("path") or "") == (tinfo(hi[1]).get("path") or "-")), None)
                t = field(hdr, "pdu_type") if hdr is not None else None
                if t is None:
                    R.undecided(key, "supplied header not found", "pdu")
                    continue
                T = DISCR(t)
            rem = mk("rem", (r.buf,))
            # other types
            bad = None
            tested = 0
            vals = range(256) if which == "deserialize" else [v["discr"] for v in tinfo(t.ty)["variants"]]
            groups = {}
            for n in vals:
                if n == code[0]:
                    continue
                groups.setdefault(simplify(r.ret, (EQ(T, K(n)),)), []).append(n)
                tested += 1
            for v, ns in groups.items():
                for conds, leaf in result_leaves(v):
                    vn = variant_name(leaf)
                    e = variant_name(leaf.a[1][0]) if vn == "Err" and leaf.a[1] else None
                    if e == "InvalidHeader":
                        continue
                    if e == "BufferUnderflow" and has_op_conds(conds, rem):
                        continue
                    if leaf.op == "top" or vn is None:
                        R.undecided(f"{key}/other-type", show(leaf)[:120], "pdu")
                        continue
                    # reachable under any amount of input
                    w = witness(lambda env: True, [leaf_probe(leaf), rem], conds)
                    if w and w[0]:
                        bad = (ns[0], vn if vn == "Ok" else e)
                        break
                if bad:
                    break
            if bad:
                n, got = bad
                R.viol(f"{key}/accepts", where(f), f"{nm}::{which} given a header of type {n} returns {got} instead of the invalid-header error", nm, "pdu")
            else:
                R.ok(f"{tested} other type numbers rejected", f"{nm}.{which}", "pdu")
            # the own type
            own = simplify(r.ret, (EQ(T, K(code[0])),))
            for conds, leaf in result_leaves(own):
                if variant_name(leaf) == "Err" and leaf.a[1] and variant_name(leaf.a[1][0]) == "InvalidHeader":
                    w = witness(lambda env: True, [rem], conds)
                    if w and w[0]:
                        R.viol(f"{key}/rejects-own", where(f), f"{nm}::{which} rejects its own type {code[0]} with the invalid-header error", nm, "pdu")
                        break
            # the header is kept
            for conds, v, toks in ok_path(r):
                cs = conds + (EQ(T, K(code[0])),)
                got = FLD(v, None, *hi)
                if which == "deserialize":
                    hd = hdr_decoder(cx, hi[1])
                    rh = cx.run(hd) if hd is not None else None
                    if rh is None or rh.ret is None:
                        R.undecided(f"{key}/header", "header decoder not analysable", "pdu")
                        continue
                    a, b = reads_of(rh.toks), reads_of(toks)
                    if len(b) < len(a) or [t[3] for t in a] != [t[3] for t in b[:len(a)]]:
                        R.undecided(f"{key}/header", "header reads not recognised", "pdu")
                        continue
                    m = {}
                    for x, y in zip(a, b):
                        for z in reach(rh.ret):
                            if z.op == "get" and z.a[0] == x[1]:
                                m[z] = mk("get", (y[1],) + tuple(z.a[1:]), z.ty)
                    # nodes are hash-consed: use the very nodes of the PDU decoder
                    exp = subst(rh.ret, m)
                else:
                    exp = hdr
                cs = tuple(c for c in cs if c is not TRUE)
                got, exp = simplify(got, cs), simplify(exp, cs)
                lost = []
                for path, x, y, c2 in deep(got, exp, hi[1], conds=cs):
                    x, y = tighten(x, c2), tighten(y, c2)
                    if surely_equal(x, y) or decided_equal(x, y, c2):
                        continue
                    d = differ(x, y, c2)
                    lost.append((path, x, y, d))
                for path, x, y, d in lost:
                    if d:
                        R.viol(f"{key}/header{path}", where(f), f"{nm}::{which} returns header field {path.lstrip('.')} = {show(x)[:100]} instead of {show(y)[:100]} ({d})", nm, "pdu")
                    else:
                        R.undecided(f"{key}/header{path}", f"{show(x)[:100]} against {show(y)[:100]}", "pdu")
                if not lost:
                    R.ok("header kept", f"{nm}.{which}", "pdu")


def hdr_reads(r):
    for conds, v, toks in ok_path(r):
        g = [t for t in toks if t[0] == "get"]
        if len(g) >= 3 and g[0][3] == g[1][3] == g[2][3] == 1:
            return g
    return None


def has_get(n, t):
    return any(x.op == "get" and x.a[0] == t[1] for x in reach(n))


def has_op_conds(conds, rem):
    return any(rem in set(reach(c)) for c in conds)


def leaf_probe(leaf):
    return K(0)


# ------------------------------------------------------------------------------- C18
# field -> bits of the status octet
STATUS = {"tei": 0x01, "lvc": 0x06, "cei": 0x08, "bit4_5": 0x30, "dti": 0x30, "rai": 0x30, "iai": 0x30, "fti": 0x10, "ism": 0x10, "aii": 0x20}


def status_type(cx):
    for ty, t in enumerate(cx.C.T):
        if t.get("local") and (t.get("path") or "").endswith("::PduStatusRecord"):
            return ty
    return None


def numeric_leaves(v):
    if v.op == "sw":
        return all(numeric_leaves(x) for x in [y for _, y in v.a[1]] + [v.a[2]] if x.op != "bot")
    return v.op in ("k", "bin", "lin", "trunc", "byte", "cat", "get", "discr") or tinfo(v.ty).get("k") == "int"


def octet(v):
    """the single octet of a status record value"""
    for _ in range(3):
        if numeric_leaves(v):
            return v
        if v.op == "sw" and any(x.op not in ("k", "bot") and tinfo(x.ty).get("k") != "int" for x in [y for _, y in v.a[1]] + [v.a[2]]):
            return sw_map(v, lambda x: octet(x) or TOP("octet"))
        if v.op == "k":
            return v
        i = tinfo(v.ty)
        if i.get("k") == "int":
            return v
        if i.get("k") == "array":
            v = ELEM(v, K(0))
        elif i.get("variants") and len(i["variants"][0]["fields"]) == 1:
            v = FLD(v, None, 0, i["variants"][0]["fields"][0]["ty"])
        else:
            return None
    return v if numeric_leaves(v) else None


def c18(cx, R):
    R.rule("the value graphs of every accessor of the status record, evaluated for all 256 octets and all values of the field: setter result == (octet without the field's bits) | value in the field's bits, "
           "getter(setter(v)) == v, getter depends on the field's bits only; to_u8/from_u8/into_bytes/from_bytes are the identity; the bits of each field are the documented ones")
    ty = status_type(cx)
    if ty is None:
        raise LookupError("PduStatusRecord not found")
    fns = {}
    for f in cx.C.fns:
        if f.get("self_name") == tinfo(ty)["path"] or (f["argc"] and refof(f["locals"][1]) == ty):
            if not f.get("impl_trait"):
                fns[f["name"]] = f
    for nm, mask in STATUS.items():
        g = fns.get("get_" + nm) or fns.get(nm)
        sets = [(n, fns[n]) for n in ("set_" + nm, "with_" + nm) if n in fns]
        if g is None:
            R.viol(f"{nm}/gone", "PduStatusRecord", f"status field {nm} has no getter any more", nm, "field")
            continue
        rg = cx.run(g)
        og = octet(rg.selfv) if rg.selfv is not None else octet(rg.args[0])
        if rg.ret is None or og is None:
            R.undecided(f"{nm}.get", rg.err or "octet not found", "field")
            continue
        vty = rg.ret.ty if rg.ret.ty is not None else g["locals"][0]
        vty = g["locals"][0]
        enum = is_enum(vty)
        gexp = DISCR(rg.ret) if enum else rg.ret
        table = {}
        dead = False
        for b in range(256):
            try:
                table[b] = ev.ev(gexp, Env(random.Random(0), [0], {og: b}))
            except (Dead, Undef):
                dead = True
        if dead or any(not isinstance(x, int) for x in table.values()):
            R.undecided(f"{nm}.get", show(gexp)[:160], "field")
            continue
        for b in range(256):
            if table[b] != table[b & mask]:
                R.viol(f"{nm}.get/foreign-bits", where(g), f"{g['name']} gives {ename(vty, table[b])} for octet {b:#04x} but {ename(vty, table[b & mask])} for {b & mask:#04x}: it depends on bits of other fields", nm, "field")
                break
        else:
            R.ok(f"getter depends on bits {mask:#04x} only (256 octets)", nm, "field")
        sh = (mask & -mask).bit_length() - 1
        vals = [v["discr"] for v in tinfo(vty)["variants"]] if enum else list(range((mask >> sh) + 1))
        for b in range(256):
            n = (b & mask) >> sh
            if n in vals and table[b] != n:
                R.viol(f"{nm}.get/value", where(g), f"{g['name']} gives {ename(vty, table[b])} for octet {b:#04x}, whose bits {mask:#04x} hold {ename(vty, n)}", nm, "field")
                break
        else:
            R.ok("getter yields the number in its bits", nm, "field")
        if not sets:
            R.viol(f"{nm}.set/gone", "PduStatusRecord", f"status field {nm} has no setter any more", nm, "field")
        for sn, s in sets:
            rs = cx.run(s)
            if rs.ret is None:
                R.undecided(f"{nm}.{sn}", rs.err, "field")
                continue
            before = rs.selfv if rs.selfv is not None else rs.args[0]
            after = rs.final_self() if rs.selfcell is not None else rs.ret
            ob, oa = octet(before), octet(after)
            if ob is None or oa is None:
                R.undecided(f"{nm}.{sn}", "octet not found", "field")
                continue
            arg = rs.args[1]
            aty = s["locals"][2]
            akey = DISCR(arg) if is_enum(aty) else arg
            avals = [v["discr"] for v in tinfo(aty)["variants"]] if is_enum(aty) else list(range((mask >> sh) + 1))
            bad = None
            und = False
            for v in avals:
                for b in range(256):
                    try:
                        x = ev.ev(oa, Env(random.Random(0), [0], {ob: b, akey: v}))
                    except (Dead, Undef):
                        und = True
                        break
                    exp = (b & ~mask & 255) | (v << sh) & mask
                    if x != exp or (v << sh) & mask != v << sh:
                        bad = (v, b, x, exp)
                        break
                if bad or und:
                    break
            if und:
                R.undecided(f"{nm}.{sn}", show(oa)[:160], "field")
            elif bad:
                v, b, x, exp = bad
                R.viol(f"{nm}.{sn}", where(s), f"{sn}({ename(aty, v)}) turns octet {b:#04x} into {x:#04x} instead of {exp:#04x} (bits {mask:#04x})", nm, "field")
            else:
                R.ok(f"{sn}: {len(avals) * 256} cases", nm, "field")
    # whole octet
    for n in ("to_u8", "into_bytes"):
        f = fns.get(n)
        if f is None:
            continue
        r = cx.run(f)
        before = r.selfv if r.selfv is not None else (r.args[0] if r.args else None)
        a, b = (octet(before), octet(r.ret)) if before is not None and r.ret is not None else (None, None)
        octets(R, n, f, a, b)
    for n in ("from_u8", "from_bytes"):
        f = fns.get(n) or next((g for g in cx.C.fns if g["name"] == n and g.get("self_name") == tinfo(ty)["path"]), None)
        if f is None:
            continue
        r = cx.run(f)
        a, b = (octet(r.args[0]), octet(r.ret)) if r.args and r.ret is not None else (None, None)
        octets(R, n, f, a, b)
    for n in ("new_zero", "new", "default"):
        f = next((g for g in cx.C.fns if g["name"] == n and g.get("argc") == 0 and g["locals"][0] == ty), None)
        if f is None:
            continue
        r = cx.run(f)
        o = octet(r.ret) if r.ret is not None else None
        if o is not None and o.op == "k":
            if o.a[0] == 0:
                R.ok(f"{n}() has all bits clear", n, "octet")
            else:
                R.viol(f"{n}", where(f), f"PduStatusRecord::{n}() has octet {o.a[0]:#04x} instead of 0", n, "octet")
        else:
            R.undecided(n, "octet not found", "octet")


def octets(R, n, f, a, b):
    if a is None or b is None:
        R.undecided(n, "octet not found", "octet")
        return
    bad = None
    for x in range(256):
        try:
            y = ev.ev(b, Env(random.Random(0), [0], {a: x}))
        except (Dead, Undef):
            R.undecided(n, show(b)[:120], "octet")
            return
        if y != x:
            bad = (x, y)
            break
    if bad:
        R.viol(n, where(f), f"{n} turns octet {bad[0]:#04x} into {bad[1]:#04x}", n, "octet")
    else:
        R.ok("identity on all 256 octets", n, "octet")


# ------------------------------------------------------------------------------- C19
# clock component -> (seconds per unit, largest value)
COMP = {"minute": (Fraction(60), 59), "second": (Fraction(1), 59), "nanosecond": (Fraction(1, 10 ** 9), 1999999999),
        "subsec_nanos": (Fraction(1, 10 ** 9), 1999999999), "subsec_micros": (Fraction(1, 10 ** 6), 1999999), "subsec_millis": (Fraction(1, 1000), 1999)}
EPOCH = {"timestamp": Fraction(1), "timestamp_millis": Fraction(1, 1000), "timestamp_micros": Fraction(1, 10 ** 6)}
UNITS_PER_SECOND = Fraction(1 << 31, 3600)


class Odd(Exception):
    pass


def fbits(n):
    import struct
    w = tinfo(n.ty).get("bits", 32)
    if n.op == "float":
        return Fraction(struct.unpack(">f", struct.pack(">I", n.a[0]))[0]) if w == 32 else Fraction(struct.unpack(">d", struct.pack(">Q", n.a[0]))[0])
    raise Odd(show(n)[:60])


def realform(n):
    """(constant, {clock component node: weight}, lo, hi): the value as a linear form over the reals, and its range"""
    o, a = n.op, n.a
    if o == "k":
        return Fraction(a[0]), {}, Fraction(a[0]), Fraction(a[0])
    if o == "float":
        v = fbits(n)
        return v, {}, v, v
    if o == "clock":
        if a[0] in COMP:
            return Fraction(0), {n: Fraction(1)}, Fraction(0), Fraction(COMP[a[0]][1])
        raise Odd(f"clock component {a[0]}")
    if o == "lin":
        c, t, lo, hi = Fraction(a[0]), {}, Fraction(a[0]), Fraction(a[0])
        for x, k in a[1]:
            c1, t1, l1, h1 = realform(x)
            c += k * c1
            for y, w in t1.items():
                t[y] = t.get(y, Fraction(0)) + k * w
            lo += k * (l1 if k > 0 else h1)
            hi += k * (h1 if k > 0 else l1)
        return c, t, lo, hi
    if o in ("min", "max"):
        x, y = a
        (c1, t1, l1, h1), (c2, t2, l2, h2) = realform(x), realform(y)
        lo, hi = (min(l1, l2), min(h1, h2)) if o == "min" else (max(l1, l2), max(h1, h2))
        return (c1, t1, lo, hi) if t1 else (c2, t2, lo, hi)
    if o == "bin" and a[0] == "Rem" and a[1].op == "clock" and a[1].a[0] in EPOCH and isk(a[2]):
        return Fraction(0), {n: Fraction(1)}, Fraction(0), Fraction(a[2].a[0] - 1)
    if o == "bin" and a[0] == "And" and isk(a[2]):
        c, t, lo, hi = realform(a[1])
        if hi > a[2].a[0]:
            if (a[2].a[0] + 1) & a[2].a[0]:
                raise Odd("mask")
            # wraps around; still a number of units modulo the mask
            return c, t, Fraction(0), Fraction(a[2].a[0])
        return c, t, lo, hi
    if o == "bin" and a[0] == "Div" or o == "fbin" and a[0] == "Div":
        x, y = a[1], a[2]
        c, t, lo, hi = realform(x)
        d, td, dl, dh = realform(y)
        if td or d <= 0:
            raise Odd("division")
        return c / d, {k: w / d for k, w in t.items()}, lo / d, hi / d
    if o in ("fbin", "bin") and a[0] in ("Mul", "Add", "Sub") or o == "mul":
        x, y = (a[0], a[1]) if o == "mul" else (a[1], a[2])
        op = "Mul" if o == "mul" else a[0]
        (c1, t1, l1, h1), (c2, t2, l2, h2) = realform(x), realform(y)
        if op == "Mul":
            if t1 and t2:
                raise Odd("product")
            if t1:
                c1, t1, l1, h1, c2, t2, l2, h2 = c2, t2, l2, h2, c1, t1, l1, h1
            if c1 < 0:
                raise Odd("negative factor")
            return c1 * c2, {k: w * c1 for k, w in t2.items()}, c1 * l2, c1 * h2
        s = 1 if op == "Add" else -1
        t = dict(t1)
        for k, w in t2.items():
            t[k] = t.get(k, Fraction(0)) + s * w
        return c1 + s * c2, t, l1 + (l2 if s > 0 else -h2), h1 + (h2 if s > 0 else -l2)
    if o == "fun" and str(a[0]).endswith("mul_add") and len(a) == 4:
        return realform(mk("fbin", ("Add", mk("fbin", ("Mul", a[1], a[2]), n.ty), a[3]), n.ty))
    if o == "fun" and str(a[0]).split("::")[-1] in ("floor", "trunc", "round", "ceil", "round_ties_even") and len(a) == 2:
        c, t, lo, hi = realform(a[1])
        return c, t, lo, hi + (1 if str(a[0]).endswith(("round", "ceil", "even")) else 0)
    if o == "fcast":
        kind = a[0]
        c, t, lo, hi = realform(a[1])
        if kind in ("IntToFloat", "FloatToFloat"):
            # rounding: relative error at most 2^-23
            return c, t, lo, hi * (1 + Fraction(1, 1 << 22))
        if kind == "FloatToInt":
            i = tinfo(n.ty)
            mx = (1 << i.get("bits", 32)) - 1
            return c, t, max(lo, Fraction(0)), min(hi, Fraction(mx))
        raise Odd(kind)
    if o == "trunc":
        c, t, lo, hi = realform(a[2])
        if hi >= 1 << a[0]:
            raise Odd("wraps")
        return c, t, lo, hi
    raise Odd(f"{o} {show(n)[:60]}")


def clock_value(n, now):
    """the timestamp for one instant (hour, minute, second, nanosecond): its value graph evaluated at a point"""
    import struct
    memo = {}

    def rd(x, ty):
        return struct.unpack(">f", struct.pack(">f", x))[0] if tinfo(ty).get("bits") == 32 else x

    def go(n):
        v = memo.get(n)
        if v is None:
            v = memo[n] = calc(n)
        return v

    def calc(n):
        o, a = n.op, n.a
        if o == "k":
            return a[0]
        if o == "float":
            return float(fbits(n))
        if o == "clock":
            h, m, s, ns = now
            tot = ((480000 + h) * 3600 + m * 60 + s) * 10 ** 9 + ns
            per = {"timestamp": 10 ** 9, "timestamp_millis": 10 ** 6, "timestamp_micros": 1000, "timestamp_nanos": 1}.get(a[0])
            if per:
                return tot // per
            c = {"hour": h, "minute": m, "second": s, "nanosecond": ns, "subsec_nanos": ns, "timestamp_subsec_nanos": ns, "subsec_micros": ns // 1000,
                 "timestamp_subsec_micros": ns // 1000, "subsec_millis": ns // 10 ** 6, "timestamp_subsec_millis": ns // 10 ** 6,
                 "num_seconds_from_midnight": h * 3600 + m * 60 + s}.get(a[0])
            if c is None:
                raise Odd(f"clock component {a[0]}")
            return c
        if o == "lin":
            return a[0] + sum(k * go(t) for t, k in a[1])
        if o == "mul":
            return go(a[0]) * go(a[1])
        if o in ("min", "max"):
            return (min if o == "min" else max)(go(a[0]), go(a[1]))
        if o == "trunc":
            x = go(a[2]) & ((1 << a[0]) - 1)
            return x - (1 << a[0]) if a[1] and x >> (a[0] - 1) else x
        if o == "ge0":
            return int(go(a[0]) >= 0)
        if o == "eq":
            return int(go(a[0]) == a[1])
        if o == "not":
            return int(not go(a[0]))
        if o == "sw":
            return go(dict(a[1]).get(int(go(a[0])), a[2]))
        if o == "bin":
            x, y = go(a[1]), go(a[2])
            if a[0] in ("Div", "Rem"):
                if not y:
                    raise Odd("division by zero")
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return q if a[0] == "Div" else x - q * y
            if a[0] in ("And", "Or", "Xor", "Shl", "Shr"):
                return {"And": x & y, "Or": x | y, "Xor": x ^ y, "Shl": x << (y & 127), "Shr": x >> (y & 127)}[a[0]]
        if o == "fbin":
            x, y = go(a[1]), go(a[2])
            if a[0] == "Div" and not y:
                raise Odd("division by zero")
            return rd({"Add": x + y, "Sub": x - y, "Mul": x * y}[a[0]] if a[0] in ("Add", "Sub", "Mul") else x / y if a[0] == "Div" else math.fmod(x, y), n.ty)
        if o == "fcmp":
            x, y = go(a[1]), go(a[2])
            return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[a[0]])
        if o == "fcast":
            x = go(a[1])
            if a[0] in ("IntToFloat", "FloatToFloat"):
                return rd(float(x), n.ty)
            if a[0] == "FloatToInt":
                i = tinfo(n.ty)
                lo, hi = (-(1 << (i["bits"] - 1)), (1 << (i["bits"] - 1)) - 1) if i.get("signed") else (0, (1 << i["bits"]) - 1)
                return max(lo, min(hi, int(x)))
        if o == "fun":
            nm = str(a[0]).split("::")[-1]
            xs = [go(x) for x in a[1:] if isinstance(x, N)]
            if nm == "mul_add":
                return rd(xs[0] * xs[1] + xs[2], n.ty)
            if nm in ("floor", "ceil", "trunc", "round", "abs"):
                return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "abs": abs, "round": lambda v: math.floor(v + .5)}[nm](xs[0]) * 1.0
        raise Odd(f"{o} {show(n)[:60]}")
    return go(n)


def c19_points(cx, R, f, obj, v):
    """every minute and second of the hour: the timestamp is the time within the hour to 0.5 % and a millisecond"""
    n = 0
    for m in range(60):
        for s in range(60):
            for ns in ((0, 999999999, 1999999999) if s == 59 else (0, 500000000) if s % 7 == 0 else (999999999,)):
                try:
                    x = clock_value(v, ((m * 7 + s) % 24, m, s, ns))
                except (TypeError, ValueError, OverflowError, KeyError) as e:
                    raise Odd(f"evaluation {e}")
                t = m * 60 + s + ns / 1e9
                want = t * float(UNITS_PER_SECOND)
                n += 1
                if (abs(x - want) > 0.005 * want + 600 and ns < 10 ** 9) or not 0 <= x < 1 << 31:
                    R.viol(f"{obj}/instant", where(f), f"{obj} is {x} at {m:02}:{s:02}.{ns:09} past the hour; the time within the hour is {want:.0f} units of 1/2^31 hour", obj, "function")
                    return
    R.ok(f"{n} instants covering every minute and second of the hour", obj, "function")


def c19(cx, R):
    R.rule("the timestamp's value graph reads the clock once; as a linear form over minute, second and sub-second part it weights each by its length in seconds times 2^31/3600 units (within 0.5 %), "
           "and interval evaluation bounds it below 2^31 including leap seconds; no arithmetic check in it can fail")
    found = 0
    for f in cx.C.fns:
        if f["name"] != "calculate_dis_timestamp":
            continue
        found += 1
        obj = f["key"]
        r = cx.run(f)
        if r.ret is None:
            R.undecided(obj, r.err, "function")
            continue
        nows = {x for x in reach(r.ret) if x.op == "clock" and x.a[0] == "now"}
        if len(nows) > 1:
            R.viol(f"{obj}/clock", where(f), f"{obj} combines {len(nows)} readings of the clock: the parts can belong to different instants", obj, "function")
            continue
        if not nows:
            R.viol(f"{obj}/clock", where(f), f"{obj} does not depend on the clock", obj, "function") if not has_op(r.ret, ("top", "fun")) else R.undecided(f"{obj}/clock", show(r.ret)[:120], "function")
            continue
        R.ok("one reading of the clock", obj, "function")
        if any(len(x.a) > 2 for x in nows):
            R.viol(f"{obj}/zone", where(f), f"{obj} counts from the start of the hour of the local time zone: zones with half-hour offsets are off by half the range", obj, "function")
        try:
            vals = [v for _, v in result_leaves(r.ret)] if r.ret.op == "sw" else [r.ret]
            for v in vals:
                c, t, lo, hi = realform(v)
                have = {}
                for x, w in t.items():
                    if x.op == "clock":
                        sec, _ = COMP[x.a[0]]
                        have[x.a[0]] = w / sec
                    else:
                        e = x.a[1]
                        per = EPOCH[e.a[0]]
                        if x.a[2].a[0] * per != 3600:
                            R.viol(f"{obj}/hour", where(f), f"{obj} counts from the start of a period of {float(x.a[2].a[0] * per)} s, not of the hour", obj, "function")
                        have["hour"] = w / per
                sub = [k for k in have if k.startswith(("nano", "subsec"))]
                missing = [] if "hour" in have else [k for k in ("minute", "second") if k not in have] + ([] if sub else ["sub-second part"])
                if missing:
                    R.viol(f"{obj}/parts", where(f), f"{obj} ignores the {', '.join(missing)} of the time", obj, "function")
                for k, w in have.items():
                    if abs(w / UNITS_PER_SECOND - 1) > Fraction(5, 1000):
                        R.viol(f"{obj}/weight.{k}", where(f), f"{obj} counts {float(w):.6g} units per second of the {k} part; 2^31 units per hour are {float(UNITS_PER_SECOND):.6g} per second", obj, "function")
                    else:
                        R.ok(f"{k}: {float(w):.6g} units per second", obj, "function")
                if abs(c) > 1:
                    R.viol(f"{obj}/offset", where(f), f"{obj} adds a constant {float(c):.6g}", obj, "function")
                if lo < 0 or hi >= 1 << 31:
                    R.viol(f"{obj}/range", where(f), f"{obj} can reach {float(hi):.10g}, outside [0, 2^31)", obj, "function")
                else:
                    R.ok(f"range [{float(lo):.0f}, {float(hi):.10g}] below 2^31", obj, "function")
        except Odd as e:
            R.note(f"{obj}: not a linear form ({e})") if hasattr(R, "note") else None
        try:
            c19_points(cx, R, f, obj, r.ret)
        except Odd as e:
            R.undecided(f"{obj}/form", str(e), "function")
        for e in r.events:
            if e.kind in ("overflow", "panic", "bounds", "slice", "div0"):
                from rules_panic import reachable
                w = reachable(cx, r, e)
                if w:
                    R.viol(f"{obj}/{e.kind}", where(f, e.line), f"{obj}: {e.kind} is reachable ({w})", obj, "function")
    if not found:
        raise LookupError("calculate_dis_timestamp not found")


# ------------------------------------------------------------------------------- C20
def ctors(cx):
    for f in cx.C.fns:
        if f.get("derived") or f.get("has_self") or f.get("kind") == "Closure" or not f["argc"] or f.get("impl_trait") or "::_::" in f["key"]:
            continue
        i = tinfo(f["locals"][0])
        if not (i.get("local") and i.get("k") == "adt"):
            continue
        if any(is_path(t, "Bytes") or is_path(t, "BytesMut") for t in f["locals"][1:1 + f["argc"]]):
            continue
        if tinfo(refof(f["locals"][1])).get("k") in ("slice", "int") and f["argc"] == 1 and f["name"] != "new":
            continue
        yield f


def given(r):
    """the arguments, those given by reference as what is behind it"""
    return [r.pre.cells.get(a.a[0], a) if a.op == "ref" else a for a in r.args]


def stores(v, ty, path=(), depth=0):
    """{argument name: [field path]} of a constructed value"""
    i = tinfo(ty)
    if v.op == "in":
        yield v, path
    elif v.op == "agg" and i.get("variants") and depth < 4:
        for f, x in zip(i["variants"][v.a[0] or 0]["fields"], v.a[1]):
            yield from stores(x, f["ty"], path + (f["name"],), depth + 1)


def gen_ctors(cx):
    out = {}
    for f in ctors(cx):
        r = cx.run(f)
        if r.ret is None:
            continue
        m = []
        for v, path in stores(r.ret, f["locals"][0]):
            if v in given(r):
                m.append([given(r).index(v), list(path), tinfo(f["locals"][0])["variants"][r.ret.a[0] or 0]["name"]])
        if m:
            out[f["key"]] = m
    return out


def at(v, ty, path, var):
    """the value at a path of field names"""
    for n in path:
        vs = tinfo(ty).get("variants") or []
        e = tinfo(ty).get("akind") == "enum"
        hit = None
        for vi, x in enumerate(vs):
            if e and x["name"] != var:
                continue
            for fi, f in enumerate(x["fields"]):
                if f["name"] == n:
                    hit = (vi if e else None, fi, f["ty"])
        if hit is None:
            return None, None
        v, ty = FLD(v, *hit), hit[2]
        var = None
    return v, ty


def same(v, arg, ty):
    """(equal, witness)"""
    if surely_equal(v, arg):
        return True, None
    out = []
    for path, x, y, cs in deep(v, arg, ty):
        if surely_equal(x, y) or decided_equal(x, y, cs):
            continue
        d = differ(x, y, cs)
        out.append((path, x, d))
    if not out:
        return True, None
    for path, x, d in out:
        if d:
            return False, f"{path.lstrip('.') or 'value'} is {show(x)[:80]} ({d})"
    return None, show(v)[:120]


def c20(cx, R):
    R.rule("in the value returned by each constructor, the field recorded for each argument is that argument (frozen argument-to-field table, initially equal to the names); an accessor named after a field returns that "
           "field; set_<field> leaves a value that differs from the old one in that field only, where it is the argument; header()/header_mut() give the header; named error constructors fill the fields they name")
    tab = tables.load("ctors")
    seen = set()
    for f in ctors(cx):
        k = f["key"]
        if k not in tab:
            continue
        seen.add(k)
        r = cx.run(f)
        if r.ret is None:
            R.undecided(k, r.err, "constructor")
            continue
        if f["argc"] < 1 + max(x[0] for x in tab[k]):
            R.undecided(k, "different number of arguments", "constructor")
            continue
        for ai, path, var in tab[k]:
            v, ty = at(r.ret, f["locals"][0], path, var)
            at_ = f["locals"][ai + 1]
            if v is None or (ty != at_ and not (is_path(ty, "String") and tinfo(refof(at_)).get("k") == "str")):
                R.undecided(f"{k}/{'.'.join(path)}", "field or argument type changed", "constructor")
                continue
            ok, why = same(v, given(r)[ai], ty)
            an = dict(f["names"]).get(ai + 1, f"argument {ai}")
            if ok:
                R.ok(f"{'.'.join(path)} = {an}", k, "constructor")
            elif ok is False:
                R.viol(f"{k}/{'.'.join(path)}", where(f), f"{k}: field {'.'.join(path)} is not the argument {an}: {why}", k, "constructor")
            else:
                R.undecided(f"{k}/{'.'.join(path)}", why, "constructor")
    for k in tab:
        if k not in seen:
            R.undecided(k, "constructor not found", "constructor")
    for f in cx.C.fns:
        if not f.get("has_self") or f.get("derived") or f.get("kind") == "Closure" or not f["argc"]:
            continue
        st = refof(f["locals"][1])
        i = tinfo(st)
        if not (i.get("local") and i.get("akind") == "struct"):
            continue
        names = {x["name"]: (n, x["ty"]) for n, x in enumerate(i["variants"][0]["fields"])}
        nm = f["name"]
        if f["argc"] == 1 and (nm in names or nm.removeprefix("get_") in names or nm == "header_mut"):
            fn = "header" if nm == "header_mut" else nm if nm in names else nm.removeprefix("get_")
            if fn not in names:
                continue
            r = cx.run(f)
            if r.ret is None or r.selfv is None:
                R.undecided(f["key"], r.err or "receiver", "accessor")
                continue
            exp = FLD(r.selfv, None, *names[fn])
            got = r.ret
            if got.op == "ref":
                ok = got.a[0] == r.selfcell and got.a[1] == (("f", None) + names[fn],) or None
                if ok is None:
                    try:
                        got = r.I.load(r.st, got) if hasattr(r.I, "load") else None
                    except Exception:
                        got = None
                    ref_ok = refpath(r.ret, r.selfcell, names[fn])
                    if ref_ok is True:
                        R.ok(f"reference to {fn}", f["key"], "accessor")
                    elif ref_ok is False:
                        R.viol(f"{f['key']}", where(f), f"{f['key']} returns a reference to something other than {fn}", f["key"], "accessor")
                    else:
                        R.undecided(f["key"], show(r.ret)[:100], "accessor")
                else:
                    R.ok(f"reference to {fn}", f["key"], "accessor")
                continue
            if f["locals"][0] != names[fn][1]:
                continue
            ok, why = same(got, exp, names[fn][1])
            verdict(R, f, ok, why, f"{f['key']} does not return the field {fn}", f"returns {fn}")
            if r.final_self() is not r.selfv:
                ok, why = same(r.final_self(), r.selfv, st)
                if ok is False:
                    R.viol(f"{f['key']}/changes", where(f), f"{f['key']} changes its value: {why}", f["key"], "accessor")
        elif f["argc"] == 2 and nm.startswith("set_") and nm[4:] in names and names[nm[4:]][1] == f["locals"][2]:
            r = cx.run(f)
            if r.ret is None or r.selfcell is None:
                R.undecided(f["key"], r.err or "receiver", "accessor")
                continue
            fin = r.final_self()
            for x, (n, t) in names.items():
                got = FLD(fin, None, n, t)
                exp = r.args[1] if x == nm[4:] else FLD(r.selfv, None, n, t)
                ok, why = same(got, exp, t)
                verdict(R, f, ok, why, f"{f['key']} " + ("does not store its argument" if x == nm[4:] else f"changes field {x}"), f"{x} as expected", x)
    # error constructors
    for f in cx.C.fns:
        i = tinfo(f["locals"][0])
        if f.get("has_self") or f.get("kind") == "Closure" or "{closure" in f["key"] or f.get("impl_trait") or not f["argc"] or i.get("akind") != "enum" or not (i.get("path") or "").endswith("DISError"):
            continue
        want = f["name"].replace("_", "").lower()
        r = cx.run(f)
        if r.ret is None:
            R.undecided(f["key"], r.err, "error")
            continue
        vi = next((n for n, v in enumerate(i["variants"]) if v["name"].lower() == want), None)
        if vi is None:
            c = [n for n, v in enumerate(i["variants"]) if v["name"].lower().startswith(want)]
            vi = c[0] if len(c) == 1 else None
        got = variant_name(r.ret)
        if vi is None or got is None:
            R.undecided(f["key"], show(r.ret)[:80], "error")
            continue
        if got != i["variants"][vi]["name"]:
            R.viol(f["key"], where(f), f"{f['key']} builds {got}", f["key"], "error")
            continue
        an = {n: k - 1 for k, n in f["names"]}
        for fi, x in enumerate(i["variants"][vi]["fields"]):
            if x["name"] in an and an[x["name"]] < f["argc"] and f["locals"][an[x["name"]] + 1] == x["ty"]:
                ok, why = same(r.ret.a[1][fi], r.args[an[x["name"]]], x["ty"])
                verdict(R, f, ok, why, f"{f['key']} puts something else into {x['name']}", f"{x['name']} as given", x["name"], "error")
    # flags: number -> flags -> number
    for f in cx.C.fns:
        if f["name"].startswith("as_u") and f.get("has_self") and f["argc"] == 1 and tinfo(f["locals"][0]).get("k") == "int":
            st = refof(f["locals"][1])
            g = next((h for h in cx.C.fns if h["name"] == "from_" + f["name"][3:] and h.get("self_name") == f.get("self_name")), None)
            r = cx.run(f)
            m = cx.flag_mask(st)
            if r.ret is None or g is None or m is None:
                continue
            rg = cx.run(g)
            if rg.ret is None:
                continue
            vs = tinfo(g["locals"][0]).get("variants") or []
            si = next((n for n, v in enumerate(vs) if v["name"] == "Some"), None)
            v = FLD(rg.ret, si, 0, vs[si]["fields"][0]["ty"]) if si is not None else rg.ret
            arg = rg.args[0]
            sv = r.selfv if r.selfv is not None else r.args[0]
            back = subst(r.ret, {sv: v})
            ok = True
            for n in sorted({0, 1, m, m - 1} | {1 << b for b in range(32)} | {m & ~(1 << b) for b in range(32)}):
                if n & ~m or n > m:
                    continue
                try:
                    e = Env(random.Random(0), [0], {arg: n})
                    if si is not None and ev.ev(DISCR(rg.ret), e) != vs[si]["discr"]:
                        R.viol(f"{g['key']}/rejects", where(g), f"{g['key']}({n:#x}) gives nothing although only defined flags are set", g["key"], "flags")
                        ok = False
                        break
                    x = ev.ev(back, e)
                except (Dead, Undef):
                    ok = None
                    break
                if x != n:
                    R.viol(f"{g['key']}/number", where(g), f"{g['key']}({n:#x}).{f['name']}() gives {x}", g["key"], "flags")
                    ok = False
                    break
            if ok:
                R.ok(f"{g['name']} and {f['name']} are inverse on defined flags", f.get("self_name"), "flags")
            elif ok is None:
                R.undecided(g["key"], show(back)[:100], "flags")
    # PDU trait's provided method
    for f in cx.C.fns:
        if f["name"] != "finalize" or f["argc"] != 1:
            continue
        r = cx.run(f)
        st = refof(f["locals"][1])
        p = next((q for q in cx.pdus.values() if q["ty"] == st), None)
        if r.ret is None or p is None or r.selfcell is None:
            R.undecided(f["key"], r.err or "receiver", "finalize")
            continue
        rl = cx.run(p["calculate_length"])
        if rl.ret is None:
            continue
        hi = header_index(st)
        from rules_size import changed
        fin = r.final_self()
        L = canon(subst(rl.ret, {rl.selfv: r.selfv}))
        bad = False
        for path, a, b in changed(fin, r.selfv, st):
            if path == "header.length":
                continue
            d = differ(a, b)
            if d:
                R.viol(f"{f['key']}/{path}", where(f), f"{f['key']} changes {path} ({d})", f["key"], "finalize")
                bad = True
        ln = canon(field(FLD(fin, None, *hi), "length"))
        for cs, leaf in ok_leaves(L):
            x, y = simplify(ln, cs), simplify(leaf.a[1][0], cs)
            if surely_equal(x, y) or decided_equal(x, y, cs):
                continue
            d = differ(x, y, cs)
            if d:
                R.viol(f"{f['key']}/length", where(f), f"{f['key']} stores {show(x)[:100]} instead of the calculated length ({d})", f["key"], "finalize")
            else:
                R.undecided(f["key"], f"{show(x)[:100]} against {show(y)[:100]}", "finalize")
            bad = True
        if not bad:
            R.ok("stores the calculated length and nothing else", f["key"], "finalize")


def refpath(ref, cell, fld):
    if ref.a[0] != cell:
        return False
    p = ref.a[1]
    if len(p) != 1:
        return False if len(p) == 0 or len(p) > 1 else None
    s = p[0]
    if isinstance(s, (tuple, list)) and len(s) >= 3 and s[0] == "f":
        return s[2] == fld[0]
    return None


def verdict(R, f, ok, why, msg, okmsg, sub="", kind="accessor"):
    key = f["key"] + (f"/{sub}" if sub else "")
    if ok:
        R.ok(okmsg, f["key"], kind)
    elif ok is False:
        R.viol(key, where(f), f"{msg}: {why}", f["key"], kind)
    else:
        R.undecided(key, why, kind)
