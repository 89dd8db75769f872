"""C02, C03, C09, C10, C15: what is on the wire and what comes back from it."""
from base import *
import random
import tables
from ev import Env, Dead, Undef, leaves, pool_of
from units import norm, usubst, usize, compare_units, Cmp, desc
from rules_size import report, field, changed, len_derived


# ------------------------------------------------------------------------------- C09
def trait_tag(f):
    return short(f.get("impl_trait") or "") + "." + f["name"]


def layouts(cx):
    """(key, units, function, conditions, object) of every encoder"""
    for it in cx.items.values():
        for f in it.enc:
            r = cx.run(f)
            if r.toks is None:
                yield f"{it.name}|{trait_tag(f)}", None, f, (), it.short
                continue
            yield f"{it.name}|{trait_tag(f)}", norm(r.toks), f, (), it.short
    for nm, p in cx.pdus.items():
        r = cx.run(p["serialize"])
        if r.ret is None:
            yield f"{p['name']}|Pdu.serialize", None, p["serialize"], (), nm
            continue
        for n, (conds, _, toks) in enumerate(ok_path(r)):
            yield f"{p['name']}|Pdu.serialize" + (f"#{n}" if n else ""), norm(toks), p["serialize"], conds, nm


def key_short(k):
    n, tr = k.split("|")
    return short_ty(n) + "|" + tr


def gen_layouts(cx):
    from ser import Writer
    out = {}
    for key, us, f, conds, obj in layouts(cx):
        if us is None:
            raise SystemExit(f"no layout for {key}")
        w = Writer()
        u = w.units(us)
        out[key_short(key)] = dict(nodes=w.nodes, units=u)
    return out


def c09(cx, R):
    from ser import Reader, Missing
    R.rule("the octet sequence of every encoder, as a sequence of (width, value expression) over its named fields, equals the frozen layout table")
    tab = tables.load("layouts")
    seen = set()
    for key, us, f, conds, obj in layouts(cx):
        k = key_short(key)
        seen.add(k)
        if k not in tab:
            continue        # a type added later
        if us is None:
            R.undecided(k, "encoder not analysable", "encoder")
            continue
        try:
            exp = Reader(cx, tab[k]["nodes"]).units(tab[k]["units"])
        except Missing as e:
            R.undecided(k, f"table entry refers to {e}", "encoder")
            continue
        c = compare_units(us, exp, conds)
        report(R, c, k, where(f), f"{len(us)} units as laid down", obj, "encoder")
    for k in tab:
        if k not in seen:
            R.undecided(k, "encoder not found", "encoder")


# ------------------------------------------------------------------------------- C02
def is_container(name):
    return (name or "").startswith(("std::vec::Vec", "alloc::vec::Vec", "std::option::Option", "std::string::String", "alloc::string::String"))


def pairs(cx):
    """(type, encoder, decoder) for every record, enumeration and header type"""
    opt = {}
    for it in cx.items.values():
        i = tinfo(it.ty)
        if (i.get("path") or "").endswith("option::Option") and i.get("args"):
            for f in it.dec:
                if not f.get("impl_trait"):
                    opt.setdefault(i["args"][0], []).append(f)
    for it in cx.items.values():
        if is_container(it.name) or not it.enc:
            continue
        decs = list(it.dec) + opt.get(it.ty, [])
        withlen = [f for f in decs if f["name"] == "deserialize_with_len"]
        for f in decs:
            if withlen and f["name"] == "deserialize_field":
                # a type that is only decodable with its length: the length-less decoder reads nothing
                continue
            tr = f.get("impl_trait")
            encs = [e for e in it.enc if (e.get("impl_trait") or "").replace("Serialize", "") == (tr or "").replace("Deserialize", "").replace("WithLen", "")] or it.enc
            yield it, encs[0], f


def roundtrip(cx, R, key, obj, us, selfv, r, dec, ty, conds=(), kind="pair", skip=(), m0=None, over=None):
    """matches decoder result r against units us of selfv"""
    from roundtrip import Match, Fail, apply, agree, agree_units, fits, units_nodes
    if r.ret is None or r.toks is None:
        R.undecided(key, r.err or "no tokens", kind)
        return
    try:
        us = agree_units(us)
        size = agree(usize(us))
        m0 = dict(m0 or {})
        conds = tuple(conds) + fits(cx, list(units_nodes(us)) + [selfv])
        if r.buf is not None:
            m0[mk("rem", (r.buf,))] = size
        for a in r.args:
            if kind == "pair" and a.op == "in" and tinfo(a.ty).get("k") == "int":
                m0[a] = size
        M = Match(conds)
        m = M.run(us, r.toks, m0, conds)
        v = apply(r.ret, m)
        v = text_fold(simplify(v, conds), conds)
    except Fail as e:
        if e.kind == "viol":
            R.viol(f"{key}/shape", where(dec), f"{obj}: {e.msg}", obj, kind)
        else:
            R.undecided(key, e.msg, kind)
        return
    # unwrap Option / Result
    ri = tinfo(dec["locals"][0])
    p = ri.get("path") or ""
    if p.endswith("result::Result"):
        d = DISCR(v)
        bad = witness(lambda e: ev.ev(d, e) != 0, [d], conds) if not isk(d, 0) else None
        if bad and bad[0]:
            R.viol(f"{key}/error", where(dec), f"{obj}: the decoder fails on bytes the encoder produced ({explain(d, K(0), bad[0])})", obj, kind)
            return
        v = FLD(v, 0, 0, tinfo(dec["locals"][0])["variants"][0]["fields"][0]["ty"])
    elif p.endswith("option::Option") and ty != dec["locals"][0]:
        vs = ri["variants"]
        si = next(i for i, x in enumerate(vs) if x["name"] == "Some")
        d = DISCR(v)
        c2 = conds + (GE0(ladd([size, K(-1)])),) if not isk(size) else conds
        bad = witness(lambda e: ev.ev(d, e) != vs[si]["discr"], [d, size], [c for c in c2 if c is not TRUE]) if not isk(d, vs[si]["discr"]) else None
        if bad and bad[0]:
            R.viol(f"{key}/none", where(dec), f"{obj}: the decoder returns nothing for bytes the encoder produced ({explain(d, K(1), bad[0])})", obj, kind)
            return
        v = FLD(simplify(v, [c for c in c2 if c is not TRUE]), si, 0, vs[si]["fields"][0]["ty"])
    bads, unds = [], []
    for path, a, b, cs in deep(v, simplify(selfv, conds), ty, conds=conds, am=agree):
        if any(path == s or path.startswith(s + ".") or path.startswith(s + "[") for s in skip):
            continue
        if over and path in over:
            b = over[path]
        a, b = tighten(agree(a), cs), tighten(agree(b), cs)
        if surely_equal(a, b) or decided_equal(a, b, cs):
            continue
        if has_op(a, ("top",)) or has_op(b, ("top",)):
            unds.append((path, f"{show(a)[:120]}"))
            continue
        d = differ(a, b, cs)
        if d:
            bads.append((path, f"{show(a)[:160]} instead of {show(b)[:120]} ({d})"))
        else:
            unds.append((path, f"{show(a)[:120]} against {show(b)[:120]}"))
    for path, msg in bads[:6]:
        R.viol(f"{key}/{path.lstrip('.')}", where(dec), f"{obj}: decoding gives field {path.lstrip('.') or 'value'} = {msg}", obj, kind)
    if unds and not bads:
        R.undecided(key, "; ".join(f"{p.lstrip('.')}: {m}" for p, m in unds[:4])[:500], kind)
    if not bads and not unds:
        R.ok(f"{M.reads} reads bound to writes, every field restored", obj, kind)


def c02(cx, R):
    R.rule("the decoder's reads are bound, in order, to the encoder's writes; counts must agree and nothing may be left over; the decoder's result with the written values "
           "substituted equals the encoded value field by field, given that count fields agree with their lists")
    for it, e, d in pairs(cx):
        re_ = cx.run(e)
        if re_.toks is None:
            R.undecided(it.short, re_.err or "no tokens", "pair")
            continue
        roundtrip(cx, R, f"{it.short}.{trait_tag(d)}", it.short, norm(re_.toks), re_.selfv, cx.run(d), d, it.ty)


def text_fold(n, conds):
    """text cut from a zero-padded fixed-size place is the text that was written there, given that it fits and has
    no zero octets: trim_end_matches(lossy(place), 0) where octet j of place is text[j] if j < len(text) else 0"""
    m = {}
    for x in reach(n):
        if x.op != "fun" or x.a[0] != "str:trim_end_matches" or len(x.a) != 3 or not isk(x.a[2], 0):
            continue
        y = x.a[1]
        while y.op == "deref" or (y.op == "fun" and len(y.a) == 2):
            y = y.a[0] if y.op == "deref" else y.a[1]
        if y.op != "lossy":
            continue
        place = y.a[0]
        total = LEN(place)
        texts = {z.a[0] for z in reach(ELEM(place, K(0))) if z.op == "elem" and (tinfo(z.a[0].ty).get("name") or "").endswith("string::String")}
        if len(texts) != 1 or not isk(total):
            continue
        t = texts.pop()
        cs = tuple(conds) + fits_text(t)
        if upper(LEN(t), cs) > total.a[0]:
            continue
        if all(surely_equal(tighten(ELEM(place, K(j)), cs), tighten(ITE(GE0(ladd([LEN(t), K(-1 - j)])), ELEM(t, K(j)), K(0)), cs)) for j in range(total.a[0])):
            m[x] = t
            m[mk("deref", (x,), t.ty)] = t
    if not m:
        return n
    for x in reach(n):
        if x.op == "deref" and x.a[0] in m:
            m[x] = m[x.a[0]]
    return subst(n, m)


def fits_text(t):
    from roundtrip import FIT
    if t.op != "fld":
        return ()
    mx = FIT.get(short(tinfo(t.a[0].ty).get("name") or ""), {}).get(fname(t.a[0].ty, t.a[1], t.a[2]))
    c = GE0(ladd([K(mx), lmul(K(-1), LEN(t))])) if mx is not None else TRUE
    return () if c is TRUE else (c,)


# ------------------------------------------------------------------------------- C03
def drop(us, n):
    """us without its first n octets"""
    us = list(us)
    while n:
        u = us[0] if us else ("end",)
        if u[0] != "put" or u[1] > n:
            return None
        n -= u[1]
        us.pop(0)
    return us


def undecoded(r, ty):
    """fields of container type that the decoder leaves empty whatever the bytes"""
    i = tinfo(ty)
    out = []
    leaves_ = ok_leaves(r.ret) if r.ret is not None else []
    if not leaves_:
        return out
    for fi, f in enumerate(i["variants"][0]["fields"]):
        if not is_container(tinfo(f["ty"]).get("name")):
            continue
        empty = True
        for conds, leaf in leaves_:
            v = FLD(leaf.a[1][0], None, fi, f["ty"]) if leaf.a[1] else None
            if v is None:
                empty = False
                break
            if (tinfo(f["ty"]).get("path") or "").endswith("option::Option"):
                if not isk(DISCR(v), 0):
                    empty = False
            elif not isk(LEN(v), 0):
                empty = False
        if empty:
            out.append((fi, f))
    return out


def c03(cx, R):
    R.rule("the decoder's reads are bound, in order, to the octets written by serialize (all of them, or those after the header), with exactly that many octets in the buffer; "
           "every body field of the decoded PDU must equal the encoded one")
    for nm, p in cx.pdus.items():
        rs = cx.run(p["serialize"])
        if rs.ret is None or rs.toks is None:
            R.undecided(nm, rs.err or "serialize not analysable", "pdu")
            continue
        paths = ok_path(rs)
        over = {}
        for path, a, b in changed(rs.final_self(), rs.selfv, p["ty"]):
            if not has_op(a, ("top",)) and len_derived(cx, rs, p, path, a):
                over["." + path] = a        # a length the encoder maintains
        for which in ("deserialize", "deserialize_without_header"):
            d = p.get(which)
            if d is None:
                continue
            rd = cx.run(d)
            if rd.ret is None:
                R.undecided(f"{nm}.{which}", rd.err or "decoder not analysable", "pdu")
                continue
            lost = undecoded(rd, p["ty"])
            em = {}
            for fi, f in lost:
                x = FLD(rs.selfv, None, fi, f["ty"])
                R.viol(f"{nm}.{f['name']}/not-decoded", where(d), f"{nm}: field {f['name']} is always left empty by {which}, whatever was encoded", nm, "pdu")
                if (tinfo(f["ty"]).get("path") or "").endswith("option::Option"):
                    em[DISCR(x)] = K(0)
                else:
                    em[LEN(x)] = K(0)
            for n, (conds, _, toks) in enumerate(paths):
                us = norm(toks)
                code = us[2] if len(us) > 2 else None
                us = usubst(us, em)
                cs = tuple(simplify(c, ()) if not em else subst(c, em) for c in conds)
                cs = tuple(c for c in cs if c is not TRUE)
                m0 = {}
                if which == "deserialize_without_header":
                    us = drop(us, 12)
                    if us is None or code[1] != 1:
                        R.undecided(f"{nm}.{which}", "header is not 12 plain octets", "pdu")
                        continue
                    hdr = next((a for a in rd.args if "header" in (tinfo(a.ty).get("name") or "").lower()), None)
                    if hdr is not None:
                        m0[DISCR(_field(hdr, "pdu_type"))] = code[2]
                key = f"{nm}.{which}" + (f"#{n}" if n else "")
                for ccs in optional_cases(us):
                    u2 = simplify_units(us, ccs)
                    c2 = tuple(c for c in (simplify(c, ccs) for c in cs) if c is not TRUE) + ccs
                    if any(c is FALSE for c in c2):
                        continue
                    roundtrip(cx, R, key, nm, u2, rs.selfv, rd, d, p["ty"], conds=c2, kind="pdu", m0=m0, over=over,
                              skip=[".header"] + ["." + f["name"] for _, f in lost])


def optional_cases(us):
    """the combinations of present and absent optional parts; a present part has at least one octet (a part of
    no octets is not distinguishable from an absent one)"""
    import itertools
    from roundtrip import units_nodes
    ds = []
    for n in units_nodes(us):
        for x in reach(n):
            if x.op == "discr" and x not in ds and (tinfo(x.a[0].ty).get("path") or "").endswith("option::Option"):
                ds.append(x)
    if not ds or len(ds) > 3:
        return [()]
    out = []
    for vals in itertools.product((0, 1), repeat=len(ds)):
        cs = ()
        for d, v in zip(ds, vals):
            cs += (EQ(d, K(v)),)
        if 1 in vals:
            m = {d: K(v) for d, v in zip(ds, vals)}
            for u in us:
                if u[0] == "alt" and u[1] in ds and m[u[1]].a[0] == 1:
                    body = next((b for c, b in u[2] if c == 1), u[3])
                    g = GE0(ladd([usize(list(body or ())), K(-1)]))
                    if g is not TRUE:
                        cs += (g,)
        out.append(cs)
    return out


def simplify_units(us, conds):
    if not conds:
        return us
    m = {}
    for c in conds:
        if c.op == "eq":
            m[c.a[0]] = K(c.a[1])
        elif c.op == "not":
            m[c.a[0]] = FALSE
        else:
            m[c] = TRUE
    return usubst(us, m)


def _field(v, name):
    for i, f in enumerate(tinfo(v.ty)["variants"][0]["fields"]):
        if f["name"] == name:
            return FLD(v, None, i, f["ty"])
    raise KeyError(name)


# ------------------------------------------------------------------------------- C10
def is_enum(ty):
    i = tinfo(ty)
    return i.get("k") == "adt" and i.get("akind") == "enum" and bool(i.get("variants")) and not any(v["fields"] for v in i["variants"]) \
        and not (i.get("path") or "").startswith(("std::", "core::", "alloc::"))


def default_of(cx, ty):
    """discriminant of the enumeration's default"""
    if not hasattr(cx, "_defs"):
        cx._defs = {}
        for f in cx.C.fns:
            if f["name"] == "default" and (f.get("impl_trait") or "").endswith("default::Default") and f["argc"] == 0 and is_enum(f["locals"][0]):
                v = cx.run(f).ret
                d = DISCR(v) if v is not None else None
                if d is not None and d.op == "k":
                    cx._defs[f["locals"][0]] = d.a[0]
    return cx._defs.get(ty)


def enum_leaves(v, ty, path="", depth=0):
    """(path, value, enumeration type) of every enumeration inside a value of type ty"""
    if depth > 8 or v.op in ("top", "bot"):
        return
    if is_enum(ty):
        yield path, v, ty
        return
    i = tinfo(ty)
    k = i.get("k")
    if k == "tuple":
        for j, t in enumerate(i["elems"]):
            yield from enum_leaves(FLD(v, None, j, t), t, f"{path}.{j}", depth + 1)
        return
    if k == "adt" and i.get("variants") and not is_container(i.get("name")):
        for vi, var in enumerate(i["variants"]):
            e = i.get("akind") == "enum"
            for fi, f in enumerate(var["fields"]):
                yield from enum_leaves(FLD(v, vi if e else None, fi, f["ty"]), f["ty"], f"{path}.{var['name'] + '.' if e else ''}{f['name']}", depth + 1)
        return
    et = elem_ty(mk("opaque", ("t",), ty))
    if et is not None and tinfo(et).get("k") == "adt":
        if isk(LEN(v), 0):
            return
        u = vg.fresh()
        vg.ix_bounds[u] = LEN(v)
        yield from enum_leaves(ELEM(v, IX(u)), et, f"{path}[*]", depth + 1)


def decode_table(d, vals):
    """(reads, {number: discriminant}, discriminant of every other number) of a decoded discriminant, or None"""
    if d.op == "sw" and d.a[0].op == "get" and all(isk(v) or v.op == "bot" for _, v in d.a[1]) and (isk(d.a[2]) or d.a[2].op == "bot"):
        return d.a[0], {k: (v.a[0] if isk(v) else None) for k, v in d.a[1]}, d.a[2].a[0] if isk(d.a[2]) else None
    gs = [x for x in leaves(d)]
    if len(gs) != 1 or gs[0].op != "get" or has_op(d, ("top",)):
        return None
    g = gs[0]
    lo, hi = rng(g)
    if hi - lo < 1 << 16:
        ns = range(lo, hi + 1)
    else:
        near = {v + (k << b) for v in list(vals)[:400] for b in (8, 15, 16, 24, 31, 32, 48, 63) for k in (1, -1)} | {v + 1 for v in vals} | {v - 1 for v in vals} \
            | {v * 2 for v in list(vals)[:50]} | {(v << b) for v in list(vals)[:50] for b in (8, 16, 24)}
        ns = sorted(x for x in set(pool_of([d])) | set(vals) | near | {hi, hi - 1, hi // 2} if lo <= x <= hi)
    t = {}
    for n in ns:
        env = Env(random.Random(0), [0], {g: n})
        try:
            t[n] = ev.ev(d, env)
        except Dead:
            t[n] = None
        except Undef:
            return None
    if hi - lo < 1 << 16:
        return g, t, "all"
    return g, t, "some"


def check_decode(cx, R, key, w, obj, d, ety, kind):
    i = tinfo(ety)
    ds = {v["discr"]: v["name"] for v in i["variants"]}
    dflt = default_of(cx, ety)
    if d.op == "k":
        return False
    t = decode_table(d, ds)
    if t is None:
        R.undecided(key, f"{short(i['name'])} decoded by {show(d)[:160]}", kind)
        return False
    g, tab, other = t
    lo, hi = rng(g)
    en = short(i["name"])
    bad = None
    nums = set(tab) | {x for x in ds if lo <= x <= hi}
    probe = next((x for x in range(lo, hi + 1) if x not in tab and x not in ds), None) if other not in ("all", "some") else None
    if probe is not None:
        nums.add(probe)
    for n in sorted(nums):
        got = tab.get(n, other if other not in ("all", "some") else None)
        exp = n if n in ds else dflt
        if exp is None or (n not in tab and other in ("all", "some")):
            continue
        if got != exp:
            bad = (n, got, exp)
            break
    if bad:
        n, got, exp = bad
        what = f"variant {ds[n]}" if n in ds else "no variant (default " + str(ds.get(dflt)) + ")"
        R.viol(f"{key}", w, f"{obj}: number {n} denotes {what} of {en} but decodes to {ds.get(got, 'a panic' if got is None else got)}", obj, kind)
    else:
        R.ok(f"{en}: {len(nums)} numbers checked, every other number gives the default" if other not in ("all", "some") else f"{en}: {len(nums)} numbers checked", obj, kind)
    return True


def c10(cx, R):
    R.rule("the decision table by which a decoder maps the number it reads to a variant is {discriminant -> that variant, anything else -> Default::default()}, for every enumeration "
           "decoder and every enumeration field of every record, header and PDU; the number an encoder writes for a variant is its discriminant and fits the width written")
    # 1. the enumerations' own coders
    for it in cx.items.values():
        if not is_enum(it.ty):
            continue
        i = tinfo(it.ty)
        for f in it.enc:
            r = cx.run(f)
            if r.toks is None:
                R.undecided(f"{it.short}.{trait_tag(f)}", r.err, "encoder")
                continue
            us = norm(r.toks)
            if len(us) != 1 or us[0][0] != "put":
                R.undecided(f"{it.short}.{trait_tag(f)}", f"{len(us)} units", "encoder")
                continue
            v = us[0][2]
            d = DISCR(r.selfv)
            bad = None
            for var in i["variants"]:
                x = subst(v, {d: K(var["discr"])})
                if not isk(x) or x.a[0] != var["discr"] or not 0 <= x.a[0] < 1 << (8 * us[0][1]):
                    bad = (var, x)
                    break
            if bad and isk(bad[1]):
                R.viol(f"{it.short}.{trait_tag(f)}/number", where(f), f"{it.short}::{bad[0]['name']} ({bad[0]['discr']}) is written as {show(bad[1])} in {us[0][1]} octets", it.short, "encoder")
            elif bad:
                R.undecided(f"{it.short}.{trait_tag(f)}", show(bad[1])[:200], "encoder")
            else:
                R.ok(f"{len(i['variants'])} variants written as their numbers", it.short, "encoder")
    # 2. numbers accepted by from_* conversions
    for f in cx.C.fns:
        tr = f.get("impl_trait") or ""
        if tr.endswith("FromPrimitive") and f["name"] in ("from_i64", "from_u64") and f["argc"] == 1:
            ety = next((a for a in tinfo(f["locals"][0]).get("args") or [] if is_enum(a)), None)
            if ety is None:
                continue
            r = cx.run(f)
            if r.ret is None:
                R.undecided(f"{short(tinfo(ety)['name'])}.{f['name']}", r.err, "conversion")
                continue
            arg = r.args[0]
            ds = {v["discr"] for v in tinfo(ety)["variants"]}
            vs = tinfo(f["locals"][0])["variants"]
            si = next(k for k, x in enumerate(vs) if x["name"] == "Some")
            okk = True
            for n in sorted(ds | {x + 1 for x in ds} | {x - 1 for x in ds if x} | {255, 256, 65535, 65536}):
                try:
                    x = ev.ev(r.ret, Env(random.Random(0), [0], {arg: n}))
                except (Dead, Undef):
                    x = None
                if not (isinstance(x, tuple) and x[0] == "agg"):
                    R.undecided(f"{short(tinfo(ety)['name'])}.{f['name']}", f"value for {n}", "conversion")
                    okk = False
                    break
                some = x[2] == si
                y = x[3][0] if some else None
                got = tinfo(ety)["variants"][y[2]]["discr"] if some and isinstance(y, tuple) and y[0] == "agg" else None
                if some != (n in ds) or (some and got != n):
                    R.viol(f"{short(tinfo(ety)['name'])}.{f['name']}", where(f), f"{short(tinfo(ety)['name'])}::{f['name']}({n}) gives {'variant number ' + str(got) if some else 'nothing'}", short(tinfo(ety)["name"]), "conversion")
                    okk = False
                    break
            if okk:
                R.ok(f"{len(ds)} numbers and their neighbours", short(tinfo(ety)["name"]), "conversion")
    # conversions between a number and an enumeration of the crate
    for f in cx.C.fns:
        if not (f.get("impl_trait") or "").endswith("convert::From") or f["argc"] != 1 or f["name"] != "from":
            continue
        src, dst = f["locals"][1], f["locals"][0]
        ints = [tinfo(t).get("k") == "int" for t in (src, dst)]
        if is_enum(dst) and tinfo(dst).get("local") and ints[0]:
            ety = dst
        elif is_enum(src) and tinfo(src).get("local") and ints[1]:
            ety = src
        else:
            continue
        en = short(tinfo(ety)["name"])
        key = f"{en}.from_number" if ety == dst else f"{en}.into_number"
        r = cx.run(f)
        if r.ret is None or has_op(r.ret, ("top",)):
            R.undecided(key, r.err or "value not known", "conversion")
        elif ety == dst:
            ds = {v["discr"]: v["name"] for v in tinfo(ety)["variants"]}
            dflt = default_of(cx, ety)
            top = (1 << max(ds).bit_length()) - 1       # the numbers the field of such an enumeration can hold
            bad = None
            for n in range(top + 1):
                x = subst(DISCR(r.ret), {r.args[0]: K(n)})
                if not isk(x):
                    bad = (None, x)
                    break
                if n in ds or dflt is not None:
                    if x.a[0] != (n if n in ds else dflt):
                        bad = (n, x)
                        break
            if bad and bad[0] is not None:
                n, x = bad
                R.viol(key, where(f), f"{en}::from({n}) gives {ds.get(x.a[0])} instead of {ds.get(n, str(ds.get(dflt)) + ', the default')}", en, "conversion")
            elif bad:
                R.undecided(key, show(bad[1])[:120], "conversion")
            else:
                R.ok(f"{top + 1} numbers converted", en, "conversion")
        else:
            bad = next(((v, x) for v in tinfo(ety)["variants"] for x in [subst(r.ret, {DISCR(r.args[0]): K(v["discr"])})] if not isk(x, v["discr"])), None)
            if bad and isk(bad[1]):
                R.viol(key, where(f), f"{en}::{bad[0]['name']} ({bad[0]['discr']}) converts to the number {show(bad[1])}", en, "conversion")
            elif bad:
                R.undecided(key, show(bad[1])[:120], "conversion")
            else:
                R.ok(f"{len(tinfo(ety)['variants'])} variants convert to their numbers", en, "conversion")
    # 3. decoders
    def results():
        for it in cx.items.values():
            if is_container(it.name) or (tinfo(it.ty).get("path") or "").endswith("result::Result"):
                continue
            for f in it.dec:
                yield it.short + "." + trait_tag(f), it.short, f, [], it.ty
        for nm, p in cx.pdus.items():
            for w in ("deserialize", "deserialize_without_header"):
                if w in p:
                    yield f"{nm}.{w}", nm, p[w], [".header"], p["ty"]
    for key, obj, f, skip, ty in results():
        r = cx.run(f)
        if is_enum(ty):
            from rules_panic import reachable
            p = next((w for e in r.events if e.kind == "panic" for w in [reachable(cx, r, e)] if w), None)
            if p:
                R.viol(f"{key}/panic", where(f), f"{obj}: the decoder panics instead of giving the default for a number without a variant ({p})", obj, "decoder")
                continue
        if r.ret is None:
            R.undecided(key, r.err, "decoder")
            continue
        if (tinfo(f["locals"][0]).get("path") or "").endswith("result::Result"):
            vals = [lf.a[1][0] for cs, lf in ok_leaves(r.ret) if lf.a[1]]
        else:
            vals = [r.ret]
        for v in vals:
            for path, x, ety in enum_leaves(v, ty):
                if any(path.startswith(s) for s in skip):
                    continue
                check_decode(cx, R, f"{key}{path}", where(f), f"{obj}{path}", DISCR(x), ety, "decoder")
    # 4. encoders: no enumeration number is narrowed
    for key, us, f, conds, obj in layouts(cx):
        if us is None:
            continue
        seen = 0
        for w, v in puts_of(us):
            for x in reach(v):
                if x.op in ("trunc", "bin", "byte"):
                    ls = [y for y in leaves(x)]
                    if len(ls) == 1 and ls[0].op == "discr" and is_enum(ls[0].a[0].ty):
                        y = x.a[2] if x.op == "trunc" else None
                        if y is not None:
                            d = differ(x, y)
                            if d:
                                R.viol(f"{key_short(key)}/narrowed", where(f), f"{obj}: enumeration {short(tinfo(ls[0].a[0].ty)['name'])} is narrowed to {x.a[0]} bits ({d})", obj, "encoder")
            if v.op == "discr" and is_enum(v.a[0].ty):
                seen += 1
                hi = max(z["discr"] for z in tinfo(v.a[0].ty)["variants"])
                if hi >= 1 << (8 * w):
                    R.viol(f"{key_short(key)}/width", where(f), f"{obj}: enumeration number {hi} does not fit {w} octets", obj, "encoder")
        if seen:
            R.ok(f"{seen} enumeration fields fit their width", obj, "encoder")


def puts_of(us):
    for u in us:
        if u[0] == "put":
            yield u[1], u[2]
        elif u[0] == "rep":
            yield from puts_of(u[3])
        elif u[0] == "alt":
            for _, b in u[2]:
                yield from puts_of(b)
            yield from puts_of(u[3] or ())


# ------------------------------------------------------------------------------- C15
def tail_dependence(size, ret, rem, isres, trials=60):
    """a valuation with two amounts of input, both covering everything consumed, that give different results"""
    nodes = [n for n in (size, ret) if n is not None]
    pool = pool_of(nodes)
    rnd = random.Random(ev.SEED)
    for t in range(trials * ev.EFFORT):
        base = Env(rnd, pool, {rem: 1 << 16})
        try:
            s0 = ev.ev(size, base)
        except (Undef, Dead):
            continue
        for r1, r2 in ((s0, s0 + 1), (s0, s0 + 24), (s0 + 3, s0 + 9), (200, 260), (30, 37), (1 << 16, (1 << 16) + 5), (100, 3000)):
            try:
                e1 = Env(rnd, pool, {rem: r1})
                e1.leaf = dict(base.leaf)
                s1 = ev.ev(size, e1)
                if not isinstance(s1, int) or s1 > r1:
                    continue
                v1 = ev.ev(ret, e1) if ret is not None else None
                if isres and v1 is not None and v1[0] == "agg" and v1[2] != 0:
                    continue        # rejected
                e2 = Env(rnd, pool, {rem: r2})
                e2.leaf = dict(e1.leaf)
                s2 = ev.ev(size, e2)
                if s1 != s2:
                    return f"with {r1} octets in the buffer it consumes {s1}, with {r2} octets {s2}"
                if ret is not None:
                    v2 = ev.ev(ret, e2)
                    if ev._cmp(v1, v2) is False:
                        return f"with {r1} octets in the buffer it gives {ev._vs(v1)[:120]}, with {r2} octets {ev._vs(v2)[:120]}"
            except (Undef, Dead, RecursionError):
                continue
    return None


def rem_sites(toks):
    """descriptions of the tokens whose extent or choice depends on how much is left in the buffer"""
    out = []
    for t in toks or ():
        if t[0] == "alt":
            if has_op(t[1], ("rem", "markpos")):
                out.append(f"a choice on {show(t[1])[:100]}")
            for _, b in t[2]:
                out += rem_sites(b)
            out += rem_sites(t[3] or ())
        elif t[0] == "rep":
            if has_op(t[2], ("rem", "markpos")):
                out.append(f"a loop of {show(t[2])[:100]} iterations")
            out += rem_sites(t[3])
        elif t[0] == "getseq" and has_op(t[2], ("rem", "markpos")):
            out.append(f"a read of {show(t[2])[:100]} octets")
    return out


def c15(cx, R):
    R.rule("neither the reads (which, how many) nor the result of a record decoder depend on the number of octets in the buffer as long as it covers what is consumed; "
           "every read is of the octets at the front, no later octet is inspected")
    def decoders():
        for it in cx.items.values():
            if is_container(it.name) or (tinfo(it.ty).get("path") or "").endswith("result::Result"):
                continue
            for f in it.dec:
                yield f"{it.short}.{trait_tag(f)}", it.short, f, "record"
        for nm, p in cx.pdus.items():
            for w in ("deserialize", "deserialize_without_header"):
                if w in p:
                    yield f"{nm}.{w}", nm, p[w], "pdu"
    for key, obj, f, kind in decoders():
        r = cx.run(f)
        if r.ret is None or r.toks is None:
            R.undecided(key, r.err or "decoder not analysable", kind)
            continue
        rem = mk("rem", (r.buf,)) if r.buf is not None else None
        sites = rem_sites(r.toks)
        peek = [t[1] for t in flat(r.toks) if t[0] == "other"]
        if not has_op(r.ret, ("rem", "markpos", "top")) and not sites and not peek:
            R.ok("independent of the rest of the buffer", obj, kind)
            continue
        if not peek and only_underflow(r):
            R.ok("depends on the amount of input only to reject short input", obj, kind)
            continue
        size = tok_size(r.toks, True)
        if has_op(size, ("top",)) or peek:
            R.undecided(key, "; ".join(sites + peek) or show(size)[:200], kind)
            continue
        isres = (tinfo(f["locals"][0]).get("path") or "").endswith("result::Result")
        d = tail_dependence(size, r.ret if not has_op(r.ret, ("top",)) else None, rem, isres)
        if d:
            R.viol(f"{key}/tail", where(f), f"{obj}: the decoder depends on octets beyond its own: {'; '.join(sites) or show(r.ret)[:120]}: {d}", obj, kind)
        else:
            R.undecided(key, "; ".join(sites)[:300], kind)


def flat(toks):
    for t in toks or ():
        yield t
        if t[0] == "alt":
            for _, b in t[2]:
                yield from flat(b)
            yield from flat(t[3] or ())
        elif t[0] == "rep":
            yield from flat(t[3])


def only_underflow(r):
    """the amount of input is only compared with a size, and the larger side reads on"""
    def walk(toks):
        for t in toks or ():
            if t[0] == "alt":
                s = t[1]
                if has_op(s, ("rem",)):
                    if s.op != "ge0":
                        return False
                    ks = [(x, k) for x, k in lin(s.a[0])[1].items() if has_op(x, ("rem",))]
                    if any(x.op != "rem" for x, _ in ks) or not (all(k < 0 for _, k in ks) or all(k > 0 for _, k in ks)):
                        return False
                    short = 1 if ks[0][1] < 0 else 0
                    short_arm = next((b for c, b in t[2] if c == short), t[3])
                    if any(x[0] not in ("mark",) for x in flat(short_arm or ())):
                        return False
                for _, b in t[2]:
                    if not walk(b):
                        return False
                if not walk(t[3] or ()):
                    return False
            elif t[0] == "rep":
                if has_op(t[2], ("rem", "markpos")) or not walk(t[3]):
                    return False
            elif t[0] == "getseq" and has_op(t[2], ("rem", "markpos")):
                return False
        return True
    if not walk(r.toks):
        return False
    oks = ok_leaves(r.ret) if r.ret is not None else []
    return bool(oks) and all(not has_op(v, ("rem", "markpos")) for _, v in oks)
