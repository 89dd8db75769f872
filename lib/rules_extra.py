"""C26 (type peek), C27 (neutral records), C28 (size helpers), C29 (decode entry points agree), C30 (chunking), C31 (errors)."""
import random
from base import *
from ev import Env, Dead, Undef
from rules_more import default_fn


# ------------------------------------------------------------------------------- C26
def c26(cx, R):
    from rules_panic import peek
    from rules_sem import hdr_decoder
    R.rule("the peek gives nothing below 12 octets and otherwise the variant that the header decoder builds from the type octet: both value graphs are evaluated for every octet; the peek reads no other octet "
           "and writes nothing")
    peek(cx, R, True)
    # the header decoder's view of the same octet
    for ty, it in sorted(cx.items.items(), key=lambda t: t[1].name or ""):
        i = tinfo(ty)
        if not (i.get("path") or "").endswith("PduHeader") or not i.get("variants"):
            continue
        hd = hdr_decoder(cx, ty)
        r = cx.run(hd) if hd is not None else None
        n = next((k for k, f in enumerate(i["variants"][0]["fields"]) if f["name"] == "pdu_type"), None)
        if r is None or r.ret is None or n is None:
            continue
        pt = i["variants"][0]["fields"][n]["ty"]
        d = DISCR(FLD(r.ret, None, n, pt))
        gs = [x for x in reach(d) if x.op == "get"]
        if len(gs) != 1:
            R.undecided(f"{short_ty(it.name)}.pdu_type", show(d)[:100], "peek")
            continue
        dom = {v["discr"] for v in tinfo(pt)["variants"]}
        other = next((v["discr"] for v in tinfo(pt)["variants"] if v["name"] == "Other"), 0)
        for b in range(256):
            try:
                got = ev._num(d, Env(random.Random(0), [0], {gs[0]: b}))
            except (Undef, Dead):
                R.undecided(f"{short_ty(it.name)}.pdu_type", show(d)[:100], "peek")
                break
            if got != (b if b in dom else other):
                R.viol(f"{short_ty(it.name)}.pdu_type", where(hd), f"the header decoder gives type {got} for type octet {b}, the peek {b if b in dom else other}", it.short, "peek")
                break
        else:
            R.ok("the header decoder agrees on all 256 octets", it.short, "peek")


# ------------------------------------------------------------------------------- C27
# values of a default record that are not the neutral value of their type
NOT_NEUTRAL = {("SimulationAddress", "site_id"): 1, ("SimulationAddress", "application_id"): 1,
               ("PduHeader", "exercise_id"): 1, ("LiveEntityPduHeader", "exercise_id"): 1}


def c27(cx, R):
    R.rule("value graph of every record's Default: integers 0, flags clear, floats 0, lists and texts empty, optional parts absent, enumerations and nested records equal to their own Default "
           "(simulation addresses 1:1, header exercise 1 and version IEEE 1278.1-2012); a constructor without arguments gives the default")
    pd = {p["ty"] for p in cx.pdus.values()}
    for f in sorted(cx.C.fns, key=lambda f: f["key"]):
        if f["argc"] or not tinfo(f["locals"][0]).get("local") or "::_::" in f["key"]:
            continue
        ty = f["locals"][0]
        i = tinfo(ty)
        if i.get("akind") == "enum" or ty in pd or not i.get("variants") or "InternalBitFlags" in (i.get("name") or ""):
            continue
        tr = f.get("impl_trait") or ""
        if f["name"] == "default" and tr.endswith("Default"):
            r = cx.run(f)
            obj = short_ty(i.get("name"))
            if r.ret is None:
                R.undecided(obj, r.err or "not analysable", "record")
                continue
            if cx.flag_mask(ty) is not None and not isk(r.ret) and len(i["variants"][0]["fields"]) == 1:
                pass
            bad = und = None
            for n, x in enumerate(i["variants"][0]["fields"]):
                v = FLD(r.ret, None, n, x["ty"])
                if x["name"] == "timestamp" and has_op(v, ("clock",)):
                    continue
                if x["name"] == "protocol_version":
                    w = next((a["discr"] for a in tinfo(x["ty"]).get("variants") or [] if a["name"] == "IEEE1278_1_2012"), None)
                    d = DISCR(v)
                    if d.op == "k" and w is not None and d.a[0] != w:
                        bad = f"{x['name']} = {show(v)[:60]}"
                    continue
                st = neutral(cx, v, x["ty"], NOT_NEUTRAL.get((short(i.get("path")), x["name"]), 0))
                if st is False:
                    bad = f"{x['name']} = {show(v)[:60]}"
                    break
                if st is None:
                    und = f"{x['name']} = {show(v)[:80]}"
            if bad:
                R.viol(obj, where(f), f"the default {obj} is not neutral: {bad}", obj, "record")
            elif und:
                R.undecided(obj, und, "record")
            else:
                R.ok(f"{len(i['variants'][0]['fields'])} fields neutral", obj, "record")
        elif f["name"] == "new" and not tr and f.get("self_name") == i.get("name"):
            d = default_fn(cx, ty)
            a = cx.run(f).ret
            b = cx.run(d).ret if d is not None else None
            if a is None or b is None:
                continue
            from rules_more import cmp
            cmp(R, f"{short_ty(i['name'])}/new", where(f), a, b, ty, f"{short_ty(i['name'])}::new() and ::default() differ", short_ty(i["name"]), "record")


def neutral(cx, v, ty, num=0, depth=0):
    """True: v is the neutral value of its type; False: it is not; None: unknown"""
    i = tinfo(ty)
    k = i.get("k")
    if v.op == "sw" or v.op == "top":
        return None
    if k in ("int", "bool", "char"):
        return (v.a[0] == num) if v.op == "k" else None
    if k == "float":
        return (v.a[0] == 0) if v.op in ("float", "k") else None
    if k in ("array", "tuple") or (k == "adt" and elem_ty(mk("opaque", ("t",), ty)) is not None):
        if k == "tuple":
            rs = [neutral(cx, FLD(v, None, n, t), t, 0, depth + 1) for n, t in enumerate(i["elems"])]
            return False if False in rs else None if None in rs else True
        ln = LEN(v)
        if k == "adt":
            return (ln.a[0] == 0) if isk(ln) else None
        if not isk(ln) or ln.a[0] > 256:
            return None
        rs = [neutral(cx, ELEM(v, K(n)), i["of"], 0, depth + 1) for n in range(ln.a[0])]
        return False if False in rs else None if None in rs else True
    if k == "adt":
        if (i.get("path") or "").endswith("option::Option"):
            d = DISCR(v)
            return (d.a[0] == 0) if isk(d) else None
        d = default_fn(cx, ty)
        if d is not None:
            w = cx.run(d).ret
            if w is None:
                return None
            if surely_equal(v, w):
                return True
            for path, x, y, cs in deep(v, w, ty):
                if differ(x, y, cs):
                    return False
            return None
        if i.get("akind") == "enum":
            return None
        vs = i.get("variants")
        if not vs or depth > 8:
            return None
        rs = [neutral(cx, FLD(v, None, n, x["ty"]), x["ty"], 0, depth + 1) for n, x in enumerate(vs[0]["fields"])]
        return False if False in rs else None if None in rs else True
    return None


# ------------------------------------------------------------------------------- C28
def c28(cx, R):
    R.rule("the published limits agree with each other and with what the encoder and the header do: normal forms of the size helpers compared with the limits over all sizes")
    cs = {c["path"].split("::")[-1]: c for c in cx.F["consts"] if c["path"].startswith("common::constants::")}

    def cv(n):
        c = cs.get(n)
        v = c and c.get("v")
        v = v and v.get("v")
        return v.get("bits") if isinstance(v, dict) else None
    MAXO, MAXB, HDR, MARK = cv("MAX_PDU_SIZE_OCTETS"), cv("MAX_PDU_SIZE_BITS"), cv("PDU_HEADER_SIZE"), cv("MAX_ENTITY_MARKING_LENGTH")
    w = lambda n: f"{(cs[n]['span'] or ['?', 0])[0]}:{(cs[n]['span'] or ['?', 0])[1]} {n}" if n in cs else "src/common/constants.rs"

    def same(key, n, a, b, msg):
        if a is None or b is None:
            R.undecided(key, "constant not found", "constant")
        elif a != b:
            R.viol(key, w(n), msg, n, "constant")
        else:
            R.ok(f"{a}", n, "constant")
    same("bits", "MAX_PDU_SIZE_BITS", MAXB, MAXO and MAXO * 8, f"MAX_PDU_SIZE_BITS is {MAXB}, eight times MAX_PDU_SIZE_OCTETS is {MAXO and MAXO * 8}")
    for it in cx.items.values():
        if (tinfo(it.ty).get("path") or "").endswith("PduHeader") and it.LENGTH is not None:
            L = it.LENGTH.get("v", {})
            L = L.get("v") if isinstance(L, dict) else None
            L = L.get("bits") if isinstance(L, dict) else None
            same(f"header/{it.short}", "PDU_HEADER_SIZE", HDR, L, f"PDU_HEADER_SIZE is {HDR}, {it.short}::LENGTH is {L}")
            for f in it.enc:
                r = cx.run(f)
                if r.toks is not None:
                    sz = tok_size(r.toks, False)
                    if isk(sz) and HDR is not None and sz.a[0] != HDR:
                        R.viol(f"header/{it.short}.{f['name']}", where(f), f"PDU_HEADER_SIZE is {HDR}, {it.short} is encoded in {sz.a[0]} octets", it.short, "constant")
                    elif isk(sz):
                        R.ok(f"encoded in {sz.a[0]} octets", it.short, "constant")
    lim = {"validate_pdu_size": MAXO, "validate_marking_length": MARK}
    for f in cx.C.fns:
        if f.get("impl_trait") or not f["key"].startswith("common::constants::") or f["argc"] != 1:
            continue
        nm = f["name"]
        r = cx.run(f)
        if r.ret is None:
            R.undecided(nm, r.err, "helper")
            continue
        a = r.args[0]
        if nm in lim and lim[nm] is not None:
            exp = GE0(lsub(K(lim[nm]), a))
        elif nm == "total_pdu_size" and HDR is not None:
            exp = ladd([a, K(HDR)])
        else:
            R.undecided(nm, "no rule for this helper", "helper")
            continue
        d = None if surely_equal(r.ret, exp) else differ(r.ret, exp, (GE0(lsub(K(1 << 40), a)),))
        if d:
            R.viol(nm, where(f), f"{nm} gives {show(r.ret)[:80]} where {show(exp)[:80]} is due ({d})", nm, "helper")
        elif surely_equal(r.ret, exp):
            R.ok(show(exp)[:80], nm, "helper")
        else:
            R.undecided(nm, show(r.ret)[:100], "helper")
    # what the encoder enforces
    from rules_size import bits_of
    for nm, p in sorted(cx.pdus.items()):
        r = cx.run(p["serialize"])
        if r.ret is None or MAXO is None:
            continue
        for conds, leaf in result_leaves(r.ret):
            if variant_name(leaf) == "Err" and leaf.a[1] and variant_name(leaf.a[1][0]) == "PduSizeExceeded":
                m = leaf.a[1][0].a[1][1]
                if isk(m) and m.a[0] != MAXO:
                    R.viol(f"{nm}.max", where(p["serialize"]), f"{nm}: the size error names the maximum {m.a[0]}, MAX_PDU_SIZE_OCTETS is {MAXO}", nm, "pdu")
                elif isk(m):
                    R.ok(f"maximum {MAXO}", nm, "pdu")
                break
    # the marking limit is what the marking record holds
    for it in cx.items.values():
        if not (it.short or "").endswith("Marking") or MARK is None or it.short != "AggregateMarking" and it.short != "EntityMarking":
            continue


# ------------------------------------------------------------------------------- C29
def skip_octets(toks, n):
    """tokens after the first n octets of single reads; None when they are not plain"""
    toks = list(toks)
    while n > 0 and toks:
        t = toks.pop(0)
        if t[0] != "get" or t[3] > n:
            return None
        n -= t[3]
    return toks if n == 0 else None


def mate(a, b, m, um):
    """pairs the reads of a with those of b; fills um (ids) and returns False when the shapes differ"""
    a = [t for t in a if t[0] not in ("mark",)]
    b = [t for t in b if t[0] not in ("mark",)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "get":
            if x[3] != y[3] or x[2:4] != y[2:4]:
                return False
            um[x[1]] = y[1]
        elif x[0] == "getseq":
            um[x[1]] = y[1]
        elif x[0] == "rep":
            um[x[1]] = y[1]
            if not mate(x[3], y[3], m, um):
                return False
        elif x[0] == "alt":
            if [c for c, _ in x[2]] != [c for c, _ in y[2]] or (x[3] is None) != (y[3] is None):
                return False
            for (_, p), (_, q) in zip(x[2], y[2]):
                if not mate(p, q, m, um):
                    return False
            if x[3] is not None and not mate(x[3], y[3], m, um):
                return False
        else:
            return False
    return True


def rename(n, um, memo, rems):
    r = memo.get(n)
    if r is not None:
        return r
    if n in rems:
        r = rems[n]
    elif n.op in ("get", "getseq", "ix", "map", "sum", "flat"):
        a = [um.get(n.a[0], n.a[0])] + [rename(x, um, memo, rems) if isinstance(x, N) else x for x in n.a[1:]]
        if n.op == "ix":
            if a[0] not in vg.ix_bounds and n.a[0] in vg.ix_bounds:
                vg.ix_bounds[a[0]] = rename(vg.ix_bounds[n.a[0]], um, memo, rems)
            r = IX(a[0])
        elif n.op == "sum":
            r = SUM(*a)
        elif n.op == "map":
            r = mk("map", tuple(a), n.ty)
        else:
            r = mk(n.op, tuple(a), n.ty)
    else:
        ks = kids(n)
        if not ks:
            r = n
        else:
            r = vg.rebuild(n, lambda x: rename(x, um, memo, rems))
    memo[n] = r
    return r


def c29(cx, R):
    from rules_size import header_index, own_code, field, get_at
    from rules_sem import hdr_decoder
    R.rule("for every PDU: deserialize on octets of the own type, its first 12 octets removed, has the reads, the result and the acceptance condition of deserialize_without_header on the rest, "
           "for arbitrary octets and any number of them")
    for nm, p in sorted(cx.pdus.items()):
        fa, fb = p.get("deserialize"), p.get("deserialize_without_header")
        hi = header_index(p["ty"])
        code = own_code(cx, p)
        if fa is None or fb is None or hi is None or code is None:
            R.undecided(nm, "entry points not found", "pdu")
            continue
        ra, rb = cx.run(fa), cx.run(fb)
        if ra.ret is None or rb.ret is None or ra.toks is None or rb.toks is None:
            R.undecided(nm, ra.err or rb.err or "not analysable", "pdu")
            continue
        T = None
        for conds, v, toks in ok_path(ra):
            g = get_at(toks, 2, 1)
            if g is not None:
                T = next((x for x in reach(ra.ret) if x.op == "get" and x.a[0] == g.a[0]), None)
        hdr = next((a for a in rb.args if (tinfo(a.ty).get("path") or "") == (tinfo(hi[1]).get("path") or "-")), None)
        if T is None or hdr is None:
            R.undecided(nm, "type octet or supplied header not found", "pdu")
            continue
        rema, remb = mk("rem", (ra.buf,)), mk("rem", (rb.buf,))
        ca = (EQ(T, K(code[0])), GE0(lsub(rema, K(12))))
        cb = (EQ(DISCR(field(hdr, "pdu_type")), K(code[0])),)
        va, vb = tighten(ra.ret, ca), simplify(rb.ret, cb)
        ta, tb = toks_under(ra.toks, ca), toks_under(rb.toks, cb)
        # nested short-input arms have to be resolved by bounds
        ta = settle(ta, ca) if ta is not None else None
        tb = settle(tb, cb) if tb is not None else None
        rest = skip_octets(ta, 12) if ta is not None else None
        um = {}
        if rest is None or tb is None or not mate(rest, tb, {}, um):
            # pair the reads of the successful paths only
            la, lb = ok_leaves(va), ok_leaves(vb)
            good = len(la) == len(lb)
            um = {}
            for (c1, _), (c2, _) in zip(la, lb):
                x, y = toks_under(ra.toks, ca + tuple(c1)), toks_under(rb.toks, cb + tuple(c2))
                x = skip_octets(settle(x, ca + tuple(c1)), 12) if x is not None else None
                if x is None or y is None or not mate(x, settle(y, cb + tuple(c2)), {}, um):
                    good = False
                    break
            if not good:
                R.undecided(nm, "the two entry points read in different shapes", "pdu")
                continue
        memo = {}
        rems = {rema: ladd([remb, K(12)])}
        va = rename(va, um, memo, rems)
        und = None
        bad = None
        # acceptance
        oka, okb = EQ(DISCR(va), K(0)), EQ(DISCR(vb), K(0))
        from rules_wire import tail_dependence
        if not surely_equal(oka, okb):
            cx2 = (GE0(remb),)
            d = differ(oka, okb, cb)
            if d:
                bad = f"accept differently ({d})"
            elif not decided_equal(oka, okb, cb):
                und = f"{show(oka)[:100]} against {show(okb)[:100]}"
        la, lb = ok_leaves(va), ok_leaves(vb)
        if not bad:
            if len(la) != len(lb):
                und = f"{len(la)} and {len(lb)} successful leaves"
            for (c1, x), (c2, y) in zip(la, lb):
                if und or bad:
                    break
                for fi, f in enumerate(tinfo(p["ty"])["variants"][0]["fields"]):
                    if fi == hi[0]:
                        continue
                    s, t = FLD(x.a[1][0], None, fi, f["ty"]), FLD(y.a[1][0], None, fi, f["ty"])
                    for path, q, w, cs in deep(s, t, f["ty"], f["name"], conds=tuple(c2) + cb):
                        if surely_equal(q, w) or decided_equal(q, w, cs):
                            continue
                        d = differ(q, w, cs)
                        if d:
                            bad = f"give {path} = {show(q)[:60]} and {show(w)[:60]} ({d})"
                            break
                        und = und or f"{path}: {show(q)[:60]} against {show(w)[:60]}"
                    if bad:
                        break
        if bad:
            R.viol(nm, where(fb), f"{nm}: deserialize and deserialize_without_header on the octets after the header {bad}", nm, "pdu")
        elif und:
            R.undecided(nm, und, "pdu")
        else:
            R.ok("same reads, result and acceptance", nm, "pdu")


def settle(toks, conds):
    """alternatives decided by the bounds that conds give"""
    out = []
    for t in toks:
        if t[0] == "alt":
            s = tighten(t[1], conds)
            if isk(s):
                body = next((b for c, b in t[2] if c == s.a[0]), t[3])
                if body is not None:
                    out.extend(settle(body, conds))
                continue
            # an arm that reads nothing and ends in an error leaves the other one
            out.append(("alt", s, tuple((c, tuple(settle(b, conds))) for c, b in t[2]), None if t[3] is None else tuple(settle(t[3], conds))))
        elif t[0] == "rep":
            out.append(("rep", t[1], t[2], tuple(settle(t[3], conds))))
        else:
            out.append(t)
    return out


# ------------------------------------------------------------------------------- C30
def chunk_nodes(ns):
    out = set()
    for n in ns:
        if isinstance(n, N) and has_op(n, ("chunk",)):
            out |= {x for x in reach(n) if x.op == "chunk"}
    return out


def tok_nodes(toks):
    from rules_wire import flat
    for t in flat(toks):
        for x in t[1:]:
            if isinstance(x, N):
                yield x


def c30(cx, R):
    from rules_wire import is_container
    R.rule("no read, result, acceptance condition or index of a decoder depends on how the octets are divided into contiguous pieces: the first piece (Buf::chunk) is either not looked at, or only "
           "its first octet; its length decides nothing")
    for it in sorted(cx.items.values(), key=lambda i: i.name or ""):
        if is_container(it.name):
            continue
        for f in it.dec:
            chunks(cx, R, f, f"{it.short}.{short(f.get('impl_trait') or '')}.{f['name']}", "decoder")
    for nm, p in sorted(cx.pdus.items()):
        for which in ("deserialize", "deserialize_without_header"):
            if p.get(which):
                chunks(cx, R, p[which], f"{nm}.{which}", "decoder")


def numbers(x, ret):
    """the numbers a value consists of: (value, number), sequences by their length"""
    if ret and tinfo(x.ty).get("akind") == "enum":
        yield x, DISCR(x)
    elif x.op == "agg":
        for y in x.a[1]:
            yield from numbers(y, False)
    elif tinfo(x.ty).get("k") in ("slice", "array", "str") or (tinfo(x.ty).get("path") or "").split("::")[-1] in ("Vec", "String") or x.op in ("slice", "map", "concat", "getseq"):
        yield x, LEN(x)
    else:
        yield x, x


def chunks(cx, R, f, obj, kind):
    r = cx.run(f)
    if r.ret is None or r.toks is None:
        R.undecided(obj, r.err or "not analysable", kind)
        return
    nodes = [r.ret] + list(tok_nodes(r.toks))
    ev_nodes = [x for e in r.events for x in list(e.data or ()) + list(e.pc) if isinstance(x, N)]
    cs = chunk_nodes(nodes + ev_nodes)
    if not cs:
        R.ok("the division into pieces is not looked at", obj, kind)
        return
    bad = und = None
    for c in cs:
        ln = LEN(c)
        rem = mk("rem", (r.buf,))
        for x, d in [p for x in nodes if ln in reach(x) for p in numbers(x, x is r.ret)]:
            if ln not in reach(d):
                if x is d or ln in reach(x):
                    und = und or f"length of the first piece in {show(x)[:80]}"
                continue
            hit = None
            for n in (1, 2, 11, 12, 40, 200, 4000):
                for total in (n + 1, n + 100, 8000):
                    for seed in range(6):
                        try:
                            e1 = Env(random.Random(seed), [0, 1, 2], {rem: total, ln: total})
                            a = ev.ev(d, e1)
                            e2 = Env(random.Random(seed), [0, 1, 2], {rem: total, ln: n})
                            e2.leaf.update({k: v for k, v in e1.leaf.items() if k is not ln})
                            b = ev.ev(d, e2)
                        except (Undef, Dead):
                            continue
                        if ev._cmp(a, b) is False:
                            hit = f"with {total} octets in one piece {ev._vs(a)}, with {n} in the first piece {ev._vs(b)}"
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit:
                bad = f"depends on the length of the first contiguous piece: {hit}"
            else:
                und = und or f"length of the first piece in {show(x)[:80]}"
        if bad:
            break
        # octets beyond the first
        for x in nodes + ev_nodes:
            for y in reach(x):
                if y.op == "elem" and y.a[0] is c and isk(y.a[1]) and y.a[1].a[0] >= 1:
                    if not any(ln in reach(z) for z in nodes):
                        bad = f"reads octet {y.a[1].a[0]} of the first contiguous piece without looking at its length"
                elif y.op == "elem" and y.a[0] is c and not isk(y.a[1]):
                    und = und or show(y)[:80]
    if bad:
        R.viol(obj, where(f), f"{obj} {bad}", obj, kind)
    elif und:
        R.undecided(obj, und, kind)
    else:
        R.ok("looks only at the first octet of the first piece", obj, kind)


# ------------------------------------------------------------------------------- C31
def c31(cx, R):
    from rules_size import header_index, own_code
    R.rule("every buffer-underflow leaf of a PDU decoder carries the number of octets that were left at that point and a larger number that was wanted, and is not reached when that number is there; every "
           "invalid-header leaf's text is different for any two received types; Display of an error contains every value the error carries, in the order of the declaration, source() is the stored source, and an I/O error is wrapped unchanged")
    types = set()
    for nm, p in sorted(cx.pdus.items()):
        hi = header_index(p["ty"])
        types = types or pdu_types(hi)
        for which in ("deserialize", "deserialize_without_header"):
            f = p.get(which)
            if f is None or hi is None:
                R.undecided(f"{nm}.{which}", "not found", "decoder")
                continue
            r = cx.run(f)
            if r.ret is None or r.toks is None or r.buf is None:
                R.undecided(f"{nm}.{which}", r.err or "not analysable", "decoder")
                continue
            own = own_code(cx, p)
            underflows(cx, R, nm, which, f, r, p, [k for k in sorted(types) if own is None or k[1] != own[0]])
    errors(cx, R)


def split(conds, e, depth=0):
    """the cases of an aggregate whose fields are choices"""
    sw = next((x for x in e.a[1] if x.op == "sw"), None)
    if sw is None or depth > 6:
        yield conds, e
        return
    for cs, _ in branches(sw):
        cs = tuple(x for c in cs if c is not TRUE for x in conjuncts(c))
        if any(c is FALSE for c in cs):
            continue
        y = tighten(e, conds + cs)
        if y.op == "agg":
            yield from split(conds + cs, y, depth + 1)


def error_leaves(r):
    for conds, leaf in result_leaves(r.ret):
        if variant_name(leaf) == "Err" and leaf.a[1]:
            e = leaf.a[1][0]
            if e.op == "agg":
                for cs, x in split(conds, e):
                    yield mutual(cs), x
            else:
                yield mutual(conds), e


def mutual(conds):
    """conditions that are choices, resolved by the others"""
    cs = list(conds)
    for _ in range(4):
        out = []
        for n, c in enumerate(cs):
            if c.op == "sw":
                x = tighten(c, tuple(y for k, y in enumerate(cs) if k != n and y.op != "sw"))
                out.extend(conjuncts(x))
            else:
                out.append(c)
        if out == cs:
            break
        cs = out
    return tuple(cs)


def pdu_types(hi):
    """the numbers of the PDU types a header can carry"""
    for f in ((tinfo(hi[1]).get("variants") or [{"fields": []}])[0]["fields"] if hi else ()):
        if f["name"] == "pdu_type":
            return {(n, v["discr"]) for n, v in enumerate(tinfo(f["ty"]).get("variants") or ())}
    return set()


def type_read(p, which, f, r):
    """the number of the received PDU type: the octet at offset 2, or the supplied header's field"""
    from rules_size import header_index, field, get_at
    from rules_sem import ok_path
    if which == "deserialize":
        for conds, v, toks in ok_path(r):
            g = get_at(toks, 2, 1)
            if g is not None:
                return next((x for x in reach(r.ret) if x.op == "get" and x.a[0] == g.a[0]), None)
        return None
    hi = header_index(p["ty"])
    hdr = next((a for a in r.args if (tinfo(a.ty).get("path") or "") == (tinfo(hi[1]).get("path") or "-")), None)
    t = field(hdr, "pdu_type") if hdr is not None else None
    return DISCR(t) if t is not None else None


def underflows(cx, R, nm, which, f, r, p, types):
    rem = mk("rem", (r.buf,))
    n = 0
    bad = und = None
    for conds, e in error_leaves(r):
        v = variant_name(e)
        if v == "InvalidHeader":
            n += 1
            reason = e.a[1][0]
            if has_op(reason, ("top",)):
                und = und or f"reason {show(reason)[:60]}"
                continue
            T = type_read(p, which, f, r)
            if T is None:
                und = und or "the received type octet was not found"
                continue
            # two received types with the same text: the text does not tell which it was
            texts, same = {}, None
            for k in types:
                t = simplify(subst(reason, {T.a[0]: AGG(T.a[0].ty, k[0], ())}) if T.op == "discr" else reason, (EQ(T, K(k[1])),))
                if t in texts:
                    same = (texts[t], k)
                    break
                texts[t] = k
            if same:
                bad = f"the invalid-header error does not say which type was received: its text is the same for types {same[0][1]} and {same[1][1]}: {show(reason)[-80:]}"
                break
        if v != "BufferUnderflow":
            continue
        n += 1
        want, have = e.a[1][0], e.a[1][1]
        toks = toks_under(r.toks, conds)
        if toks is None:
            und = und or "reads before the error not known"
            continue
        used = tok_size(settle(toks, conds), True)
        if used.op == "top" or has_op(want, ("top",)) or has_op(have, ("top",)):
            und = und or f"{show(want)[:40]} / {show(have)[:40]}"
            continue
        left = lsub(rem, used)
        if not surely_equal(have, left):
            d = differ(have, left, conds)
            if d:
                bad = f"the underflow error says that {show(have)[:60]} octets are available where {show(left)[:60]} are ({d})"
                break
            if not decided_equal(have, left, conds):
                und = und or f"available {show(have)[:60]} against {show(left)[:60]}"
        if upper(lsub(want, left), conds) > 0 or not isk(want):
            w = witness(lambda env: ev._num(want, env) <= ev._num(left, env) and ev._num(left, env) >= 0, [want, left], conds, 600)
            if w and w[0]:
                bad = f"the underflow error is given although {ev._num(left, w[0])} octets are left and only {ev._num(want, w[0])} are wanted"
                break
        # enough octets pass this check
        w = witness(lambda env: ev._num(want, env) > ev._num(left, env) + 1 and ev._num(left, env) >= 0, [want, left], conds, 200)
        hi_ = upper(left, conds)
        if isk(want) and hi_ < want.a[0] - 1:
            bad = f"the underflow error asks for {want.a[0]} octets although {hi_ + 1} suffice"
            break
    if bad:
        R.viol(f"{nm}.{which}", where(f), f"{nm}::{which}: {bad}", nm, "decoder")
    elif und:
        R.undecided(f"{nm}.{which}", und, "decoder")
    else:
        R.ok(f"{n} error results", f"{nm}.{which}", "decoder")


def err_type(cx):
    for i, t in enumerate(cx.C.T):
        if (t.get("path") or "").endswith("dis_error::DISError"):
            return i
    return None


def visit(n, seen=None):
    """nodes in the order of a left-to-right walk"""
    if seen is None:
        seen = set()
    if n in seen:
        return
    seen.add(n)
    yield n
    for k in kids(n):
        yield from visit(k, seen)


def errors(cx, R):
    et = err_type(cx)
    if et is None:
        R.undecided("DISError", "not found", "error")
        return
    vs = tinfo(et)["variants"]
    for f in cx.C.fns:
        tr = f.get("impl_trait") or ""
        if "DISError" not in (f.get("self_name") or ""):
            continue
        if f["name"] == "fmt" and tr.endswith("Display"):
            r = cx.run(f)
            if r.ret is None or r.selfv is None:
                R.undecided("Display", r.err or "receiver", "error")
                continue
            for vi, v in enumerate(vs):
                x = simplify(r.ret, (EQ(DISCR(r.selfv), K(v["discr"])),))
                if has_op(x, ("top", "opaque")) or DISCR(r.selfv) in reach(x):
                    R.undecided(f"Display/{v['name']}", show(x)[:100], "error")
                    continue
                order = {}
                for k, y in enumerate(visit(x)):
                    order.setdefault(y, k)
                pos = []
                for fi, fl in enumerate(v["fields"]):
                    if fl["name"] == "source":
                        continue
                    y = FLD(r.selfv, vi, fi, fl["ty"])
                    if y not in order:
                        R.viol(f"Display/{v['name']}.{fl['name']}", where(f), f"the text of {v['name']} does not contain its {fl['name']}", "DISError", "error")
                        pos = None
                        break
                    pos.append(order[y])
                if pos is None:
                    continue
                if pos != sorted(pos):
                    R.viol(f"Display/{v['name']}/order", where(f), f"the text of {v['name']} has its values exchanged", "DISError", "error")
                else:
                    R.ok(f"text of {v['name']} contains its {len(pos)} values", "DISError", "error")
        elif f["name"] == "source" and tr.endswith("Error"):
            r = cx.run(f)
            if r.ret is None or r.selfv is None:
                R.undecided("source", r.err or "receiver", "error")
                continue
            for vi, v in enumerate(vs):
                x = simplify(r.ret, (EQ(DISCR(r.selfv), K(v["discr"])),))
                fi = next((k for k, fl in enumerate(v["fields"]) if fl["name"] == "source" or v["name"] == "NetworkError"), None)
                d = DISCR(x)
                if has_op(d, ("top", "opaque")):
                    R.undecided(f"source/{v['name']}", show(d)[:100], "error")
                    continue
                nd = next((a["discr"] for a in tinfo(r.ret.ty).get("variants") or [] if a["name"] == "None"), 0)
                if fi is None:
                    ok = isk(d, nd)
                    want = "nothing"
                elif v["name"] == "NetworkError":
                    ok = isk(d) and d.a[0] != nd
                    want = "the I/O error"
                else:
                    y = FLD(r.selfv, vi, fi, v["fields"][fi]["ty"])
                    ok = surely_equal(EQ(d, K(nd)), EQ(DISCR(y), K(0))) or decided_equal(EQ(d, K(nd)), EQ(DISCR(y), K(0)))
                    want = "the stored source"
                if not ok and (isk(d) or fi is None):
                    R.viol(f"source/{v['name']}", where(f), f"source() of {v['name']} is {show(x)[:60]} instead of {want}", "DISError", "error")
                elif not ok:
                    dd = differ(EQ(d, K(nd)), EQ(DISCR(y), K(0)))
                    if dd:
                        R.viol(f"source/{v['name']}", where(f), f"source() of {v['name']} is not {want} ({dd})", "DISError", "error")
                    else:
                        R.undecided(f"source/{v['name']}", show(d)[:100], "error")
                else:
                    R.ok(f"source of {v['name']} is {want}", "DISError", "error")
        elif f["name"] == "from" and tr.startswith("std::convert::From") and f["argc"] == 1 and f["locals"][0] == et and f["locals"][1] != et:
            r = cx.run(f)
            if r.ret is None:
                R.undecided("From", r.err, "error")
                continue
            if variant_name(r.ret) is None:
                R.undecided("From", show(r.ret)[:80], "error")
            elif variant_name(r.ret) != "NetworkError" or r.ret.a[1][0] is not r.args[0]:
                R.viol("From", where(f), f"an I/O error becomes {show(r.ret)[:60]}", "DISError", "error")
            else:
                R.ok("an I/O error is wrapped unchanged", "DISError", "error")
