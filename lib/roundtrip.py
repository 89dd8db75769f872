"""Matches what a decoder reads with what an encoder writes and substitutes the written values for the reads."""
from base import *
from units import norm, usubst, usize, desc, Cmp, zero_rep
from models import BYTE, CAT


class Fail(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg
        super().__init__(msg)


# Count and selector fields that say how much of a list (or which alternative) a record carries.  The
# property quantifies over values in which these agree with the contents.  (kind, field, expression)
def _ceil8(n):
    return BIN("Div", ladd([n, K(7)]), K(8), None)


def _prod(*xs):
    r = K(1)
    for x in xs:
        r = lmul(r, x)
    return r


AGREE = {
    "AcousticEmitterSystemData": [("len", "beam_records", lambda f: f("number_of_beams"))],
    "AttributeRecord": [("len", "record_specific_fields", lambda f: f("record_length"))],
    "AttributeRecordSet": [("len", "attribute_records", lambda f: f("number_of_attribute_records"))],
    "VariableDatumRecord": [("len", "value", lambda f: _ceil8(f("length_bits")))],
    "ElectromagneticEmissionBeamData": [("len", "track_jam_targets", lambda f: f("number_of_track_jam_targets"))],
    "ElectromagneticEmissionSystemData": [("len", "beam_data_records", lambda f: f("number_of_beams"))],
    "RecordSpecification": [("len", "record_sets", lambda f: f("number_of_record_sets"))],
    "RecordSpecificationElement": [("len", "record_values", lambda f: _prod(f("record_length"), f("record_count")))],
    "StandardVariableRecords": [("len", "record_specific_fields", lambda f: f("record_length"))],
    "StandardVariableSpecification": [("len", "standard_variable_records", lambda f: f("number_of_standard_variable_records"))],
    "VariableTransmitterParameters": [("len", "record_specific_fields", lambda f: f("record_length"))],
    "GridDataRecord": [("discr", "data", lambda f: f("data_representation"))],
    "GridAxisDescriptor": [("discr", "data", lambda f: f("axis_type"))],
    "DataRepresentationType::Type0": [("len", "data_values", lambda f: f("number_of_octets"))],
    "DataRepresentationType::Type1": [("len", "data_values", lambda f: f("number_of_values"))],
    "DataRepresentationType::Type2": [("len", "data_values", lambda f: f("number_of_values"))],
    "GridAxisType::VariableSpacing": [("len", "x_values", lambda f: f("number_of_points_on_x_axis"))],
}

# text and opaque parts that a fixed-size or length-prefixed place holds: the property covers values that fit
FIT = {"EntityMarking": {"entity_marking_string": 11}, "ModulationParameters": {"record_specific_fields": 255},
       "AntennaPattern": {"record_specific_fields": 65535}}


def fits(cx, nodes):
    """conditions under which the values are representable: parts fit their place, flags are defined flags"""
    out = {}
    for n in nodes:
        for x in reach(n):
            if x.op != "fld":
                continue
            i = tinfo(x.a[0].ty)
            t = short(i.get("name") or "")
            fit = FIT.get(t)
            if fit and x.a[1] is None or fit and i.get("akind") == "struct":
                mx = fit.get(fname(x.a[0].ty, x.a[1], x.a[2]))
                if mx is not None:
                    out[x] = GE0(ladd([K(mx), lmul(K(-1), LEN(x))]))
            if t == "InternalBitFlags" and x.a[0].op == "fld":
                m = cx.flag_mask(x.a[0].a[0].ty)
                if m is not None and x.ty is not None:
                    w = tinfo(x.ty).get("bits", 64)
                    rest = ((1 << w) - 1) & ~m
                    if rest:
                        out[x] = EQ(BIN("And", x, K(rest), x.ty), K(0))
    return tuple(c for c in out.values() if c is not TRUE and c is not FALSE)


def agreement_map(nodes):
    """{len/discr node: the count expression} for every record inside the given nodes"""
    m = {}
    seen = set()
    for n in nodes:
        for x in reach(n):
            if x in seen or x.op not in ("len", "discr"):
                continue
            seen.add(x)
            b = x.a[0]
            if b.op != "fld":
                continue
            i = tinfo(b.a[0].ty)
            t = short(i.get("name") or "")
            if i.get("akind") == "enum" and b.a[1] is not None:
                t += "::" + i["variants"][b.a[1]]["name"]
            for kind, fld, fn in AGREE.get(t, ()):
                if kind == x.op and fname(b.a[0].ty, b.a[1], b.a[2]) == fld:
                    e = fn(lambda nm, base=b.a[0], vi=b.a[1]: _f(base, nm, vi))
                    if e is not None:
                        m[x] = e
    return m


def _f(v, name, vi=None):
    i0 = tinfo(v.ty)
    vs = i0.get("variants") or [{"fields": []}]
    en = i0.get("akind") == "enum"
    for i, f in enumerate(vs[vi if en else 0]["fields"]):
        if f["name"] == name:
            r = FLD(v, vi if en else None, i, f["ty"])
            if tinfo(f["ty"]).get("akind") == "enum":
                return DISCR(r)
            return r
    raise Fail("undecided", f"count field {name} not found")


def agree(n):
    for _ in range(3):
        m = agreement_map([n])
        if not m:
            return n
        n2 = subst(n, m)
        if n2 is n:
            return n
        n = n2
    return n


def units_nodes(us):
    for u in us:
        if u[0] == "put":
            yield u[2]
        elif u[0] == "rep":
            yield u[2]
            yield from units_nodes(u[3])
        elif u[0] == "alt":
            yield u[1]
            for _, b in u[2]:
                yield from units_nodes(b)
            if u[3]:
                yield from units_nodes(u[3])


def agree_units(us):
    m = agreement_map(list(units_nodes(us)))
    return usubst(us, m) if m else us


class Match:
    def __init__(self, conds=(), extra=None):
        self.conds = tuple(conds)
        self.extra = dict(extra or {})      # substitutions known from the start (remaining octets, arguments)
        self.reads = 0

    def s(self, n, m, conds):
        n = subst(n, m)
        n = agree(n)
        return simplify(n, conds) if conds else n

    def same(self, a, b, conds, what):
        """a and b must be equal numbers"""
        if surely_equal(a, b) or decided_equal(a, b, conds):
            return
        if has_op(a, ("top",)) or has_op(b, ("top",)):
            raise Fail("undecided", f"{what}: {show(a)[:120]} against {show(b)[:120]}")
        d = differ(a, b, conds)
        if d:
            raise Fail("viol", f"{what}: the decoder uses {show(a)[:140]} where the encoder wrote {show(b)[:140]} ({d})")
        raise Fail("undecided", f"{what}: {show(a)[:120]} against {show(b)[:120]}")

    def run(self, U, T, m, conds, depth=0):
        """extends m so that reads of T are bound to writes of U"""
        U, T = list(U), list(T)
        while True:
            while T and (T[0][0] in ("mark", "put", "putseq")):
                T.pop(0)
            if not U and not T:
                return m
            if depth > 14:
                raise Fail("undecided", "too many alternatives")
            t = T[0] if T else None
            u = U[0] if U else None
            if t is not None and t[0] == "other":
                raise Fail("undecided", f"decoder applies {t[1]}")
            if u is not None and u[0] == "other":
                raise Fail("undecided", f"encoder applies {u[1]}")
            if t is not None and t[0] == "alt":
                scr = self.s(t[1], m, conds)
                if not isk(scr):
                    scr2 = self.decide(scr, conds)
                    if scr2 is not None:
                        scr = scr2
                if isk(scr):
                    body = next((ts for c, ts in t[2] if c == scr.a[0]), t[3])
                    T[:1] = list(body or ())
                    continue
                z = zero_rep(t, lambda n: self.s(n, m, conds), scr)
                if z is not None:
                    T[:1] = [z]
                    continue
                if has_op(scr, ("get", "getseq", "rem", "top")):
                    raise Fail("undecided", f"decoder branches on {show(scr)[:160]}")
                return self.split(scr, [c for c, _ in t[2]], t[3] is not None, U, T, m, conds, depth)
            if u is not None and u[0] == "alt":
                z = zero_rep(u, lambda n: n, u[1])
                if z is not None:
                    U[:1] = [z]
                    continue
                scr = simplify(agree(u[1]), conds)
                if not isk(scr):
                    scr2 = self.decide(scr, conds)
                    if scr2 is not None:
                        scr = scr2
                if isk(scr):
                    body = next((b for c, b in u[2] if c == scr.a[0]), u[3])
                    U[:1] = list(body or ())
                    continue
                return self.split(u[1], [c for c, _ in u[2]], u[3] is not None, U, T, m, conds, depth)
            if t is None:
                sz = agree(usize(U))
                self.nonzero(sz, conds, f"the decoder leaves octets unread, starting with {desc(U[0])}")
                return m
            if u is None:
                sz = self.s(tok_size(T, True), m, conds)
                self.nonzero(sz, conds, "the decoder reads more octets than were written")
                # reads that never happen
                return m
            # lists
            if t[0] == "rep":
                n = self.s(t[2], m, conds)
                if isk(n) and n.a[0] <= 512 and not (u[0] == "rep" and u[2] is n):
                    self.unroll(U, T, t, n.a[0], m, conds, depth)
                    continue
                if u[0] != "rep":
                    if not any(x[0] in ("get", "getseq", "rep", "alt") for x in t[3]):
                        T.pop(0)
                        continue
                    raise Fail("undecided", f"decoder loops {show(n)[:80]} times over {desc(u)}")
                ne = simplify(agree(u[2]), conds)
                self.same(n, ne, conds, "number of list elements")
                vg.ix_bounds.setdefault(t[1], ne)
                body = usubst(u[3], {IX(u[1]): IX(t[1])})
                m = self.run(body, t[3], m, conds, depth + 1)
                U.pop(0)
                T.pop(0)
                continue
            if t[0] == "getseq":
                n = self.s(t[2], m, conds)
                key = mk("getseq", (t[1], t[2]))
                if u[0] == "rep" and len(u[3]) == 1 and u[3][0][0] == "put" and u[3][0][1] == 1:
                    ne = simplify(agree(u[2]), conds)
                    self.same(n, ne, conds, "number of octets")
                    m[("seq", t[1])] = MAP(u[1], ne, u[3][0][2])
                    m[key] = m[("seq", t[1])]
                    U.pop(0)
                    T.pop(0)
                    continue
                if isk(n):
                    bs = self.take(U, n.a[0])
                    v = SEQ([("1", b) for b in bs])
                    m[("seq", t[1])] = v
                    m[key] = v
                    T.pop(0)
                    continue
                raise Fail("undecided", f"decoder takes {show(n)[:80]} octets from {desc(u)}")
            if t[0] == "get":
                if u[0] == "rep":
                    ne = simplify(agree(u[2]), conds)
                    if isk(ne) and ne.a[0] <= 512:
                        U[:1] = [x for j in range(ne.a[0]) for x in usubst(u[3], {IX(u[1]): K(j)})]
                        continue
                    # one element read where a list of any length was written
                    if len(u[3]) == 1 and u[3][0][0] == "put" and self.spread(U, conds):
                        continue
                    self.nonequal(agree(usize(U)), self.s(tok_size(T, True), m, conds), conds,
                                  f"the decoder reads fixed values where the encoder writes {desc(u)}")
                    raise Fail("undecided", f"decoder reads {t[3]} octets of {desc(u)}")
                key = mk("get", (t[1], t[2], t[3], t[4]))
                self.reads += 1
                if u[1] == t[3]:
                    v = u[2]
                    if t[4] == "le" and t[3] > 1:
                        v = CAT([BYTE(v, t[3], t[3] - 1 - i) for i in range(t[3])])
                    U.pop(0)
                else:
                    bs = self.take(U, t[3])
                    v = CAT(bs if t[4] == "be" else list(reversed(bs)))
                m[key] = v
                T.pop(0)
                continue
            raise Fail("undecided", f"decoder token {t[0]}")

    def spread(self, U, conds):
        """two adjacent lists of constant total length, e.g. text and its padding: one element each position"""
        if len(U) < 2 or any(x[0] != "rep" or len(x[3]) != 1 or x[3][0][0] != "put" for x in U[:2]) or U[0][3][0][1] != U[1][3][0][1]:
            return False
        a, b = U[0], U[1]
        na, nb = simplify(agree(a[2]), conds), simplify(agree(b[2]), conds)
        tot = ladd([agree(a[2]), agree(b[2])])
        if not isk(tot) or tot.a[0] > 64:
            return False
        out = []
        for j in range(tot.a[0]):
            x = subst(a[3][0][2], {IX(a[1]): K(j)})
            y = subst(b[3][0][2], {IX(b[1]): ladd([K(j), lmul(K(-1), na)])})
            out.append(("put", a[3][0][1], ITE(GE0(ladd([na, K(-1 - j)])), x, y)))
        U[:2] = out
        return True

    def take(self, U, n):
        """n octets off the front of U"""
        bs = []
        while len(bs) < n:
            if not U:
                raise Fail("viol", "the decoder reads more octets than were written")
            u = U[0]
            if u[0] != "put":
                raise Fail("undecided", f"decoder reads {n} octets across {desc(u)}")
            bs.extend(BYTE(u[2], u[1], i) for i in range(u[1]))
            U.pop(0)
        rest = bs[n:]
        U[:0] = [("put", 1, b) for b in rest]
        return bs[:n]

    def unroll(self, U, T, t, n, m, conds, depth):
        """a decoder loop of constant count over fixed fields: its reads become sequences"""
        T.pop(0)
        vals = {}
        for j in range(n):
            mm = dict(m)
            # the part of U this iteration reads is found by matching with a growing prefix
            want = tok_size(t[3], True)
            want = self.s(want, mm, conds)
            if not isk(want):
                raise Fail("undecided", "decoder loop with iterations of different size")
            part, size = [], 0
            while size < want.a[0]:
                if not U:
                    raise Fail("viol", "the decoder reads more octets than were written")
                u = U.pop(0)
                if u[0] != "put":
                    raise Fail("undecided", f"decoder loop across {desc(u)}")
                if size + u[1] > want.a[0]:
                    k = want.a[0] - size
                    U[:0] = [("put", 1, BYTE(u[2], u[1], i)) for i in range(k, u[1])]
                    part.extend(("put", 1, BYTE(u[2], u[1], i)) for i in range(k))
                    size += k
                else:
                    part.append(u)
                    size += u[1]
            body = tuple(map_tok(x, lambda y: subst(y, {IX(t[1]): K(j)})) for x in t[3])
            mm = self.run(part, body, mm, conds, depth + 1)
            for k, v in mm.items():
                if k not in m:
                    vals.setdefault(k, []).append(v)
        for k, vs in vals.items():
            if len(vs) != n:
                raise Fail("undecided", "reads of some iterations only")
            m[k] = ELEM(SEQ([("1", v) for v in vs]), IX(t[1])) if not all(v is vs[0] for v in vs) else vs[0]

    def nonzero(self, sz, conds, msg):
        self.nonequal(sz, K(0), conds, msg)

    def nonequal(self, a, b, conds, msg):
        if surely_equal(a, b) or decided_equal(a, b, conds):
            return
        if a.op == "top" or has_op(a, ("top",)):
            raise Fail("undecided", msg)
        d = differ(a, b, conds)
        if d:
            raise Fail("viol", f"{msg} ({d})")
        raise Fail("undecided", msg)

    def decide(self, scr, conds):
        """a test that the conditions settle"""
        if scr.op == "ge0":
            if -upper(lmul(K(-1), scr.a[0]), conds) >= 0:
                return TRUE
            if upper(scr.a[0], conds) < 0:
                return FALSE
        return None

    def split(self, scr, keys, has_default, U, T, m, conds, depth):
        from units import excluded, exhausted
        c = Cmp()
        res = []
        cases = [(k, EQ(scr, K(k))) for k in keys]
        dkey = None
        if has_default and not exhausted(scr, keys, conds):
            lo, hi = rng(scr)
            if (lo, hi) == (0, 1) and len(keys) == 1:
                cases.append((1 - keys[0], EQ(scr, K(1 - keys[0]))))
            elif scr.op == "discr":
                vs = [v["discr"] for v in tinfo(scr.a[0].ty).get("variants") or []]
                for d in vs:
                    if d not in keys:
                        cases.append((d, EQ(scr, K(d))))
            else:
                dkey = True
        for k, cond in cases:
            if cond is FALSE or excluded(scr, k, conds):
                continue
            cs = conds + tuple(conjuncts(cond))
            mm = dict(m)
            sub = {scr: K(k)}
            if scr.op == "ge0":
                sub[NOT(scr)] = K(1 - k)
            if scr.op == "eq" and k == 1 and scr.a[0].op != "lin":
                sub[scr.a[0]] = K(scr.a[1])
            U2 = usubst(U, sub)
            T2 = spec_toks(T, m, scr, k, self, conds)
            mm = self.run(U2, T2, mm, cs, depth + 1)
            res.append((k, mm))
        if dkey:
            neg = tuple(NOT(EQ(scr, K(k))) for k in keys)
            if not any(x is FALSE for x in neg):
                U2 = Cmp().dflt(U, scr, keys)
                T2 = spec_toks(T, m, scr, None, self, conds)
                mm = self.run(U2, T2, dict(m), conds + neg, depth + 1)
                res.append((None, mm))
        # merge the bindings
        if not res:
            return m
        out = dict(m)
        allk = []
        for _, mm in res:
            for k in mm:
                if k not in m and k not in allk:
                    allk.append(k)
        for k in allk:
            vs = [(c_, mm[k]) for c_, mm in res if k in mm]
            v0 = vs[0][1]
            if all(v is v0 for _, v in vs):
                out[k] = v0
            else:
                d = next((v for c_, v in vs if c_ is None), BOT)
                out[k] = SW(scr, tuple((c_, v) for c_, v in vs if c_ is not None), d)
        return out


def spec_toks(T, m, scr, k, M, conds):
    """decoder tokens when scr (an expression over the encoded value) is k; None: none of the listed cases"""
    out = []
    for t in T:
        if t[0] == "alt":
            s = M.s(t[1], m, conds)
            if s is scr:
                if k is None:
                    out.extend(t[3] or ())
                else:
                    out.extend(next((ts for c, ts in t[2] if c == k), t[3]) or ())
                continue
        out.append(t)
    return out


def apply(ret, m):
    """the decoder's result in terms of the encoded value"""
    mm = {k: v for k, v in m.items() if isinstance(k, N)}
    seqs = {k[1]: v for k, v in m.items() if isinstance(k, tuple)}
    if seqs:
        for x in reach(ret):
            if x.op == "getseq" and x.a[0] in seqs:
                mm[x] = seqs[x.a[0]]
    # written values may themselves be bound values of other reads: none are, they are in terms of self
    return agree(subst(ret, mm))
