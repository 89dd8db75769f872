"""C01, C04, C07, C08, C17, C22: what an encode emits, and the lengths that describe it."""
from base import *
MAXP = 8192
HDR_LEN_OFF = 8         # octet offset of the PDU length in both kinds of header


def fns_of(it):
    return it.enc


def c01(cx, R):
    R.rule("size(token sequence emitted by the encoder) == value of field_len / LENGTH, as normal forms over all field values; "
           "for PDUs under the Ok path: size == calculate_length == header length octets written")
    for it in cx.items.values():
        if not it.enc:
            continue
        lens = [(f, cx.run(f)) for f in it.len]
        for f in it.enc:
            r = cx.run(f)
            if r.toks is None:
                R.undecided(f"{it.short}.{f['name']}", r.err or "no tokens", "encoder")
                continue
            S = tok_size(r.toks, False)
            for g, rl in lens:
                if rl.ret is None:
                    R.undecided(f"{it.short}.field_len", rl.err, "encoder")
                    continue
                compare(R, f"{it.short}.{f['name']}/field_len", where(g), S, selfsub(rl, r), f"{it.short}::{f['name']} emits", "field_len reports", it.short)
            if it.LENGTH is not None:
                L = it.LENGTH["v"]["v"].get("bits")
                compare(R, f"{it.short}.{f['name']}/LENGTH", f"{it.LENGTH['span'][0]}:{it.LENGTH['span'][1]} {it.short}::LENGTH", S, K(L),
                        f"{it.short}::{f['name']} emits", "LENGTH declares", it.short)
    for nm, p in cx.pdus.items():
        r, rl = cx.run(p["serialize"]), cx.run(p["calculate_length"])
        if r.ret is None or rl.ret is None:
            R.undecided(nm, r.err or rl.err, "pdu")
            continue
        okl = ok_leaves(rl.ret)
        oks = ok_path(r)
        if not oks or not okl:
            R.undecided(nm, "no Ok path recognised", "pdu")
            continue
        for conds, _, toks in oks:
            S = simplify(tok_size(toks, False), conds)
            for lc, leaf in okl:
                L = simplify(leaf.a[1][0], lc)
                # calculate_length of the PDU as the encode leaves it: the caller's view after encoding
                compare(R, f"{nm}.serialize/calculate_length", where(p["calculate_length"]), S, L, f"{nm} encode emits", "calculate_length returns", nm, conds)
            hl = header_length_put(toks)
            if hl is None:
                R.undecided(f"{nm}.header_length", "no 16-bit field at octet 8", "pdu")
            else:
                compare(R, f"{nm}.serialize/header.length", where(p["serialize"]), S, simplify(hl, conds), f"{nm} encode emits", "the header length field says", nm, conds)


def header_length_put(toks):
    for off, t in flat_puts(toks):
        if isk(off, HDR_LEN_OFF):
            if t[0] == "put" and t[2] == 2:
                return t[4]
            return put_at(toks, HDR_LEN_OFF, 2)
    return None


def selfsub(rl, r):
    return rl.ret


def compare(R, key, wh, a, b, an, bn, obj, conds=()):
    if a.op == "top" or b.op == "top" or has_op(a, ("top",)) or has_op(b, ("top",)):
        R.undecided(key, f"{show(a)} vs {show(b)}"[:300])
        return
    if surely_equal(a, b) or decided_equal(a, b, conds):
        R.ok(f"{show(canon(a))[:120]} octets", obj)
        return
    d = differ(a, b, conds)
    if d:
        R.viol(key, wh, f"{an} {show(a)[:200]} octets but {bn} {show(b)[:200]} ({d})", obj)
    else:
        R.undecided(key, f"{show(a)} vs {show(b)}"[:400])


# ------------------------------------------------------------------------------- header
STD_HEADER = [("protocol_version", 1), ("exercise_id", 1), ("pdu_type", 1), ("protocol_family", 1), ("timestamp", 4), ("length", 2), (None, 1), ("padding", 1)]


def field(v, name):
    """field of a struct value by name (None when there is none)"""
    if v.op == "sw" and "variants" not in tinfo(v.ty):
        return SW(v.a[0], tuple((k, field(x, name)) for k, x in v.a[1]), v.a[2] if v.a[2].op == "bot" else field(v.a[2], name))
    vs = tinfo(v.ty).get("variants") or [{"fields": []}]
    for i, f in enumerate(vs[0]["fields"]):
        if f["name"] == name:
            return FLD(v, None, i, f["ty"])
    return None


def bits_of(v):
    """the number a scalar-like header field is written as"""
    i = tinfo(v.ty)
    if i.get("akind") == "enum":
        return DISCR(v)
    return v


def c04(cx, R):
    import tables
    from units import norm, compare_units, usize
    codes = tables.load("pdu_codes")
    R.rule("the first 12 octets of every successful encode are [version, exercise, type, family, timestamp, length, status, padding] of the header the caller set, "
           "with type and family the PDU's own codes and length the number of octets of this encoding, as normal forms over every previous header value")
    for nm, p in cx.pdus.items():
        r = cx.run(p["serialize"])
        if r.ret is None:
            R.undecided(nm, r.err, "pdu")
            continue
        hi = header_index(p["ty"])
        if hi is None:
            R.undecided(nm, "no header field", "pdu")
            continue
        h = FLD(r.selfv, None, hi[0], hi[1])
        code = codes.get(nm) or own_code(cx, p)
        if code is None:
            R.undecided(nm, "type code unknown", "pdu")
            continue
        for conds, _, toks in ok_path(r):
            us = norm(toks)
            S = simplify(tok_size(toks, False), conds)
            exp = []
            for fn, w in STD_HEADER:
                if fn == "pdu_type":
                    v = K(code[0])
                elif fn == "protocol_family":
                    v = K(code[1])
                elif fn == "length":
                    v = S
                elif fn is None:
                    v = status_byte(h)
                else:
                    f = field(h, fn)
                    v = bits_of(f) if f is not None else None
                exp.append(("put", w, v))
            if any(u[2] is None for u in exp):
                R.undecided(nm, "header fields not recognised", "pdu")
                continue
            # only the leading 12 octets
            lead, n = [], 0
            for u in us:
                if n >= 12 or u[0] != "put":
                    break
                lead.append(u)
                n += u[1]
            if n != 12:
                # a header that is not followed by a field boundary at 12
                tot = usize(us)
                R.undecided(nm, f"header region has {n} octets", "pdu") if n > 12 or us[len(lead):] else \
                    R.viol(f"{nm}.header", where(p["serialize"]), f"only {n} octets are written before the end", nm, "pdu")
                continue
            c = compare_units(lead, exp, conds)
            report(R, c, f"{nm}.header", where(p["serialize"]), "12 header octets agree", nm, "pdu", names={0: "protocol_version", 1: "exercise_id", 2: "pdu_type", 3: "protocol_family", 4: "timestamp", 8: "length", 10: "status", 11: "padding"})


def report(R, c, key, wh, okmsg, obj, kind, names=None):
    bad = [x for x in c.out if x[0] == "diff"]
    und = [x for x in c.out if x[0] != "diff"]
    if not c.out:
        R.ok(okmsg, obj, kind)
    for k, pos, msg in bad[:4]:
        sub = pos
        if names:
            for o, n in names.items():
                if pos.endswith(f"octet {o}"):
                    sub = n
        R.viol(f"{key}/{sub}", wh, f"{obj} at {pos}: {msg}", obj, kind)
    if und and not bad:
        R.undecided(key, "; ".join(f"{p}: {m}" for _, p, m in und[:3])[:500], kind)


def status_byte(h):
    vs = tinfo(h.ty).get("variants") or [{"fields": []}]
    for i, f in enumerate(vs[0]["fields"]):
        if f["name"] in ("status_record", "pdu_status_record", "status"):
            s = FLD(h, None, i, f["ty"])
            st = tinfo(f["ty"]).get("variants")
            if st and len(st[0]["fields"]) == 1:
                b = FLD(s, None, 0, st[0]["fields"][0]["ty"])
                if tinfo(b.ty).get("k") == "array":
                    return ELEM(b, K(0))
                return b
            return s
        if f["name"] == "subprotocol_number":
            return DISCR(FLD(h, None, i, f["ty"]))
    return None


def header_index(ty):
    for i, f in enumerate((tinfo(ty).get("variants") or [{"fields": []}])[0]["fields"]):
        if f["name"] == "header":
            return i, f["ty"]
    return None


def own_code(cx, p):
    """type and family that new() puts into a fresh PDU"""
    if "new" not in p:
        return None
    r = cx.run(p["new"])
    if r.ret is None:
        return None
    hi = header_index(p["ty"])
    h = FLD(r.ret, None, *hi)
    t, f = field(h, "pdu_type"), field(h, "protocol_family")
    if t is None or f is None:
        return None
    t, f = DISCR(t), DISCR(f)
    return (t.a[0], f.a[0]) if isk(t) and isk(f) else None


# ------------------------------------------------------------------------------- limits
def at_most(n, k, conds):
    """a condition bounds n by k, in whatever form it is written"""
    return any(c.op == "ge0" and (has_op(c, ("sw",)) or has_op(n, ("sw",))) and ev.cases_zero(ladd([n, c.a[0], K(-k)])) for c in conds)


def c07(cx, R):
    R.rule("every leaf of calculate_length and encode: Ok implies true size <= 8192 and the value is the untruncated size; "
           "the error is PduSizeExceeded{true size, 8192} and implies true size > 8192")
    for nm, p in cx.pdus.items():
        rs, rl = cx.run(p["serialize"]), cx.run(p["calculate_length"])
        if rl.ret is None or rs.ret is None:
            R.undecided(nm, rl.err or rs.err, "pdu")
            continue
        # true size: what a successful encode emits
        S = None
        for conds, _, toks in ok_path(rs):
            S = canon(simplify(tok_size(toks, False), conds))
        if S is None or S.op == "top":
            R.undecided(nm, "size of the encoding unknown", "pdu")
            continue
        for what, r in (("calculate_length", rl), ("serialize", rs)):
            fn = p[what]
            for conds, leaf in result_leaves(canon(r.ret)):
                v = variant_name(leaf)
                key = f"{nm}.{what}"
                if v == "Ok":
                    if upper(S, conds) <= MAXP or at_most(S, MAXP, conds):
                        R.ok("Ok only up to 8192 octets", f"{nm}.{what}")
                    else:
                        w = witness(lambda e: ev.ev(S, e) > MAXP, [S], conds)
                        if w and w[0]:
                            R.viol(f"{key}/accepts-oversize", where(fn), f"{nm}::{what} accepts an encoding of {_val(S, w[0])} octets (maximum 8192): {explain(S, K(MAXP), w[0])}", key)
                        else:
                            R.undecided(f"{key}/ok", f"size {show(S)[:200]}")
                    if what == "calculate_length":
                        val = leaf.a[1][0]
                        sv = simplify(val, conds)
                        if surely_equal(sv, S) or decided_equal(sv, S, conds):
                            R.ok("value is the untruncated size", f"{nm}.{what}")
                        else:
                            d = differ(val, S, conds)
                            if d:
                                R.viol(f"{key}/wrong-length", where(fn), f"{nm}::{what} returns {show(val)[:160]}, the encoding has {show(S)[:160]} octets ({d})", key)
                            else:
                                R.undecided(f"{key}/value", show(val)[:200])
                elif v == "Err":
                    e = leaf.a[1][0]
                    ev_name = variant_name(e)
                    if ev_name is None:
                        R.undecided(f"{key}/err", show(e)[:200])
                        continue
                    feas = feasible(conds, [S])
                    if ev_name != "PduSizeExceeded":
                        if feas:
                            R.viol(f"{key}/wrong-error", where(fn), f"{nm}::{what} fails with {ev_name} instead of PduSizeExceeded ({feas})", key)
                        else:
                            R.undecided(f"{key}/err-kind", f"{ev_name} (reachability not shown)")
                        continue
                    size, mx = e.a[1][0], e.a[1][1]
                    for x, y, lab in ((size, S, "size"), (mx, K(MAXP), "max_size")):
                        if surely_equal(simplify(x, conds), simplify(y, conds)) or decided_equal(simplify(x, conds), simplify(y, conds), conds):
                            R.ok(f"error reports the true {lab}", f"{nm}.{what}")
                        else:
                            d = differ(x, y, conds)
                            if d:
                                R.viol(f"{key}/error-{lab}", where(fn), f"{nm}::{what} reports {lab} {show(x)[:120]} instead of {show(y)[:120]} ({d})", key)
                            else:
                                R.undecided(f"{key}/error-{lab}", show(x)[:200])
                    neg = lmul(K(-1), S)
                    if upper(neg, conds) <= -(MAXP + 1) or at_most(neg, -(MAXP + 1), conds):
                        R.ok("error only above 8192 octets", f"{nm}.{what}")
                    else:
                        w = witness(lambda e_: ev.ev(S, e_) <= MAXP, [S], conds)
                        if w and w[0]:
                            R.viol(f"{key}/rejects-valid", where(fn), f"{nm}::{what} rejects an encoding of {_val(S, w[0])} octets ({explain(S, K(MAXP), w[0])})", key)
                        else:
                            R.undecided(f"{key}/err", f"size {show(S)[:200]}")
                else:
                    R.undecided(f"{key}/leaf", show(leaf)[:200])


def _val(S, env):
    try:
        return ev.ev(S, env)
    except (Undef, Dead):
        return "?"


def feasible(conds, nodes):
    """a description of a valuation satisfying conds, or None"""
    w = witness(lambda e: True, list(nodes), conds)
    if w and w[0]:
        return explain(nodes[0], nodes[0], w[0]).split(":")[0]
    return None


# ------------------------------------------------------------------------------- append only
MUTATORS = {"clear", "truncate", "split", "split_to", "split_off", "advance", "resize", "unsplit", "set_len", "overwrite"}


def c08(cx, R):
    R.rule("the effects of every encoder on the caller's buffer are appends only (no clear/truncate/split/resize/overwrite of earlier octets), "
           "and on every path of a PDU encode that returns an error the sequence of appends is empty")
    for it in cx.items.values():
        for f in it.enc:
            appends(cx, R, f, f"{it.short}.{f['name']}")
    for nm, p in cx.pdus.items():
        f = p["serialize"]
        r = appends(cx, R, f, f"{nm}.serialize")
        if r is None:
            continue
        for conds, leaf in result_leaves(r.ret):
            if variant_name(leaf) != "Err":
                continue
            t = toks_under(r.toks, conds)
            if t is None:
                continue
            from units import norm, usize
            us = norm(t)
            if not us:
                R.ok("nothing is written before the error", nm, "pdu")
                continue
            sz = usize(us)
            if sz.op == "top":
                R.undecided(f"{nm}.serialize/err-path", "effects unknown")
                continue
            w = witness(lambda e: ev.ev(sz, e) > 0, [sz], conds)
            if w and w[0]:
                R.viol(f"{nm}.serialize/partial-write", where(f), f"{nm}::serialize has already appended {_val(sz, w[0])} octets when it returns {variant_name(leaf.a[1][0])} ({explain(sz, K(0), w[0])})", nm, "pdu")
            else:
                R.undecided(f"{nm}.serialize/err-path", show(sz)[:200])


def replaced(r):
    """the value found in the place of the caller's buffer at the end when, on some path, it is a fresh buffer into which the caller's octets were not copied"""
    if r.st is None or r.buf is None:
        return None
    ends = [(r.st.cells.get(r.buf), {c: not any(t[0] == "other" for t in r.st.eff.get(c, ())) for c in r.I.bufs})]
    for e in r.events:
        if e.kind == "split-buffer" and e.data[0] == r.buf:
            ends.append((e.data[1], e.data[2]))
    for end, fresh in ends:
        if end is None or end is r.pre.cells.get(r.buf):
            continue
        todo = [end]
        while todo:
            x = todo.pop()
            if x.op == "sw":
                todo.extend(y for _, y in branches(x))
            elif x.op == "buf" and x.a[0] != r.buf and fresh.get(x.a[0]):
                return end
    return None


def appends(cx, R, f, obj):
    r = cx.run(f)
    new = replaced(r)
    if new is not None:
        R.viol(f"{obj}/replaced", where(f), f"{obj} puts another buffer in the place of the caller's, which can hold earlier octets ({show(new)[:120]})", obj, "encoder")
        return None
    if r.toks is None:
        R.undecided(obj, r.err or "no tokens", "encoder")
        return None
    bad = []

    def walk(ts):
        for t in ts or ():
            if t[0] == "other":
                bad.append(t)
            elif t[0] == "rep":
                walk(t[3])
            elif t[0] == "alt":
                for _, b in t[2]:
                    walk(b)
                walk(t[3])
    walk(r.toks)
    if not bad:
        R.ok("appends only", obj, "encoder")
    for t in bad:
        nm = t[1]
        if nm in MUTATORS:
            R.viol(f"{obj}/{nm}", where(f), f"{obj} applies {nm} to the caller's buffer, which can hold earlier octets", obj, "encoder")
        else:
            R.undecided(f"{obj}/{nm}", f"buffer operation {nm}", "encoder")
    return r


# ------------------------------------------------------------------------------- what encoding changes
DERIVED = {"header.pdu_type", "header.protocol_family", "header.length",
           "TransmitterPdu.modulation_parameter_length", "TransmitterPdu.antenna_pattern_length"}


def changed(a, b, ty, path="", depth=0, out=None):
    """paths of the fields in which struct values a (after) and b (before) differ in normal form"""
    if out is None:
        out = []
    if a is b:
        return out
    vs = tinfo(ty).get("variants")
    if depth < 4 and vs and tinfo(ty).get("akind") == "struct" and tinfo(ty).get("local", True):
        for i, f in enumerate(vs[0]["fields"]):
            changed(FLD(a, None, i, f["ty"]), FLD(b, None, i, f["ty"]), f["ty"], f"{path}.{f['name']}" if path else f["name"], depth + 1, out)
        return out
    if not surely_equal(a, b):
        out.append((path, a, b))
    return out


def c17(cx, R):
    from units import norm, compare_units
    R.rule("the PDU after encode equals the PDU before it in every field but header type/family/length and the transmitter's two length fields; "
           "encoding the PDU left behind by an encode emits the same octets; every other encoder takes its value by shared reference to data without interior mutability")
    for nm, p in cx.pdus.items():
        r = cx.run(p["serialize"])
        if r.st is None:
            R.undecided(nm, r.err, "pdu")
            continue
        fin = r.final_self()
        for path, a, b in changed(fin, r.selfv, p["ty"]):
            if path in DERIVED or f"{nm}.{path}" in DERIVED:
                continue
            if has_op(a, ("top",)):
                R.undecided(f"{nm}.{path}", show(a)[:200], "pdu")
                continue
            if len_derived(cx, r, p, path, a):
                continue
            d = leafdiff(a, b)
            if d:
                R.viol(f"{nm}.{path}", where(p["serialize"]), f"{nm}::serialize changes {path} to {show(a)[:160]} ({d})", nm, "pdu")
            else:
                R.undecided(f"{nm}.{path}", f"{show(a)[:160]} against {show(b)[:100]}", "pdu")
        R.ok("fields preserved", nm, "pdu")
        # a second encode, of the PDU left by the first
        for conds, _, toks in ok_path(r):
            us = norm(toks)
            fin_ok = simplify(fin, conds)
            m = {}
            for path, a, b in changed(fin_ok, r.selfv, p["ty"]):
                m[b] = a
            from units import usubst
            us2 = usubst(us, m) if m else us
            c = compare_units(us2, us, conds)
            report(R, c, f"{nm}.second-encode", where(p["serialize"]), "second encode emits the same octets", nm, "pdu")
    # length computation and record encoding take &self: no interior mutability makes that enough
    for a in cx.F["adts"]:
        if a.get("freeze") is False:
            R.viol(f"{short(a['path'])}/interior-mutability", f"{a['span'][0]}:{a['span'][1]} {a['path']}", f"{a['path']} has interior mutability: encoding by shared reference can change it", a["path"], "type")
        else:
            R.ok("no interior mutability", a["path"], "type")
    for it in cx.items.values():
        for f in it.enc + it.len:
            r = cx.run(f)
            if r.st is None or r.selfcell is None:
                continue
            fin = r.final_self()
            if fin is r.selfv:
                R.ok("value unchanged", f"{it.short}.{f['name']}", "encoder")
            elif not has_op(fin, ("top",)):
                d = leafdiff(fin, r.selfv)
                if d:
                    R.viol(f"{it.short}.{f['name']}", where(f), f"{it.short}::{f['name']} changes its value ({d})", it.short, "encoder")


def leafdiff(a, b):
    if a is b:
        return None
    if tinfo(b.ty).get("akind") == "enum" and not any(v["fields"] for v in tinfo(b.ty)["variants"]):
        return differ(DISCR(a), DISCR(b))
    return differ(a, b)


def len_derived(cx, r, p, path, a):
    """a new length field that the encoder derives: equal to the encoded size of another field"""
    vs = tinfo(p["ty"])["variants"][0]["fields"]
    if "." in path:
        return False
    for i, f in enumerate(vs):
        it = cx.items.get(f["ty"])
        if it is None or not it.len or f["name"] == path:
            continue
        rl = cx.run(it.len[0])
        if rl.ret is None:
            continue
        L = subst(rl.ret, {rl.selfv: FLD(r.selfv, None, i, f["ty"])})
        hi = rng(a)[1]
        if hi == INF:
            continue
        conds = (GE0(ladd([K(int(hi))], [L])),)
        if surely_equal(simplify(a, conds), simplify(L, conds)):
            return True
    return False


# ------------------------------------------------------------------------------- length fields
# (length field, part it describes, octet offset and width of the length field on the wire)
LEN_FIELDS = {"TransmitterPdu": [("modulation_parameter_length", "modulation_parameters", 100, 1), ("antenna_pattern_length", "antenna_pattern", 70, 2)]}


def put_at(toks, off, w):
    """value written to the w octets at constant offset off"""
    from units import norm
    from models import BYTE, CAT
    n, bs = 0, []
    for u in norm(toks):
        if u[0] != "put":
            return None
        if n == off and u[1] == w:
            return u[2]
        for i in range(u[1]):
            if off <= n + i < off + w:
                bs.append(BYTE(u[2], u[1], i))
        n += u[1]
        if len(bs) == w:
            return CAT(bs)
    return None


def get_at(toks, off, w):
    """the read token at constant offset off of a decoder"""
    from models import CAT
    n, bs = 0, []
    for t in toks:
        if t[0] == "get":
            if n == off and t[3] == w:
                return mk("get", (t[1], t[2], t[3], t[4]))
            if t[3] == 1 and n == off + len(bs):
                bs.append(mk("get", (t[1], "u", 1, t[4])))
                if len(bs) == w:
                    return CAT(bs)
                n += 1
                continue
            n += t[3]
        elif t[0] == "getseq" and isk(t[2]):
            n += t[2].a[0]
        elif t[0] in ("rep", "alt", "getseq", "other"):
            return None
        if n > off:
            return None
    return None


def c22(cx, R):
    from units import norm
    R.rule("on every successful encode the octets of the maintained length field hold the size of the token sequence of the part they describe; "
           "the decoder's part is repeated exactly the value read from that field")
    for nm, pairs in LEN_FIELDS.items():
        p = cx.pdus.get(nm)
        if p is None:
            raise LookupError(f"{nm} not found")
        r = cx.run(p["serialize"])
        if r.ret is None:
            R.undecided(nm, r.err)
            continue
        vs = tinfo(p["ty"])["variants"][0]["fields"]
        idx = {f["name"]: (i, f["ty"]) for i, f in enumerate(vs)}
        for lf, part, off, wd in pairs:
            if lf not in idx or part not in idx:
                R.undecided(f"{nm}.{lf}", "field not found")
                continue
            pv = FLD(r.selfv, None, *idx[part])
            it = cx.items.get(idx[part][1])
            enc = it.enc[0] if it and it.enc else None
            if enc is None:
                R.undecided(f"{nm}.{lf}", "no encoder for the part")
                continue
            re_ = cx.run(enc)
            size = subst(tok_size(re_.toks, False), {re_.selfv: pv})
            w = 8 * wd
            for conds, _, toks in ok_path(r):
                fit = GE0(ladd([K((1 << w) - 1)], [size]))
                cs = conds + ((fit,) if fit is not TRUE else ())
                put = put_at(toks, off, wd)
                if put is None:
                    R.undecided(f"{nm}.{lf}", "wire position of the length field not found")
                    continue
                a, b = simplify(put, cs), simplify(size, cs)
                if surely_equal(a, b) or decided_equal(a, b, cs):
                    R.ok(f"{lf} == octets of {part}", nm)
                else:
                    d = differ(a, b, cs)
                    if d:
                        R.viol(f"{nm}.{lf}", where(p["serialize"]), f"{lf} is written as {show(put)[:160]} but {part} has {show(size)[:160]} octets ({d})", nm)
                    else:
                        R.undecided(f"{nm}.{lf}", f"{show(a)[:200]} vs {show(b)[:200]}")
            c22_decode(cx, R, nm, p, lf, part, off, wd, idx)


def c22_decode(cx, R, nm, p, lf, part, off, wd, idx):
    for what, base in (("deserialize", 0), ("deserialize_without_header", 12)):
        r = cx.run(p[what])
        if r.ret is None:
            R.undecided(f"{nm}.{what}.{part}", r.err)
            continue
        for conds, v, toks in ok_path(r):
            g = get_at(toks, off - base, wd)
            if g is None:
                R.undecided(f"{nm}.{what}.{part}", "length read not found at its octet offset")
                continue
            g = next((x for x in reach(v) if x.op == "get" and x.a[0] == g.a[0]), g)
            pv = FLD(v, None, *idx[part])
            L = part_len(pv, idx[part][1])
            if L is None:
                R.undecided(f"{nm}.{what}.{part}", f"length of {show(pv)[:200]}")
                continue
            if surely_equal(L, g) or decided_equal(L, g, conds):
                R.ok(f"decoded {part} has as many octets as {lf} says", f"{nm}.{what}")
                continue
            d = differ(L, g, conds)
            if d:
                R.viol(f"{nm}.{what}.{part}", where(p[what]), f"{nm}::{what} decodes {part} with {show(L)[:160]} octets although {lf} is {show(g)} ({d})", nm)
            else:
                R.undecided(f"{nm}.{what}.{part}", f"{show(L)[:200]} vs {show(g)}")


def part_len(v, ty):
    """octets of an optional opaque part: 0 when absent, otherwise the length of its only list"""
    vs = tinfo(ty).get("variants") or []
    if tinfo(ty).get("akind") == "enum" and {x["name"] for x in vs} == {"None", "Some"}:
        si = next(i for i, x in enumerate(vs) if x["name"] == "Some")
        inner = FLD(v, si, 0, vs[si]["fields"][0]["ty"])
        L = list_len(inner, vs[si]["fields"][0]["ty"])
        if L is None:
            return None
        return SW(DISCR(v), ((vs[1 - si]["discr"], K(0)),), L) if not isk(DISCR(v)) else (L if DISCR(v).a[0] == vs[si]["discr"] else K(0))
    return list_len(v, ty)


def list_len(v, ty):
    if v.op == "bot":
        return K(0)
    fs = (tinfo(ty).get("variants") or [{"fields": []}])[0]["fields"]
    if len(fs) == 1:
        return LEN(FLD(v, None, 0, fs[0]["ty"]))
    return None
