"""Value graph: hash-consed symbolic values with interval ranges and linear normal forms.

Integers are mathematical integers: a value-preserving cast is the identity, a lossy one is an
explicit 'trunc' node.  Comparisons are normalised to GE0(linear form) / EQ(term, constant).
"""
import math

INF = float("inf")


class N:
    __slots__ = ("op", "a", "ty", "id", "rng_", "fl")

    def __repr__(self):
        return show(self)


_tab = {}
_next = [0]


def mk(op, a=(), ty=None):
    k = (op, a, ty)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op, n.a, n.ty, n.rng_ = op, a, ty, None
        n.id = _next[0]
        _next[0] += 1
        n.fl = None
        _tab[k] = n
    return n


_uid = [0]


def fresh():
    _uid[0] += 1
    return _uid[0]


class Types:
    """Type table of the facts (set once per run)."""
    T = []

    @classmethod
    def get(cls, t):
        return cls.T[t] if t is not None else {}


def tinfo(t):
    return Types.T[t] if isinstance(t, int) else {}


def trange(t):
    i = tinfo(t)
    k = i.get("k")
    if k == "int":
        b = i["bits"]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if i["signed"] else (0, (1 << b) - 1)
    if k == "bool":
        return (0, 1)
    if k == "char":
        return (0, 0x10FFFF)
    return (-INF, INF)


# ---------------------------------------------------------------- constructors
def K(v):
    return mk("k", (int(v),))


TRUE, FALSE = K(1), K(0)
BOT = mk("bot")
UNIT = mk("unit")


def TOP(reason):
    return mk("top", (reason, fresh()))


def isk(n, v=None):
    return n.op == "k" and (v is None or n.a[0] == v)


def IN(name, ty):
    return mk("in", (name,), ty)


def AGG(ty, variant, fields):
    fields = tuple(fields)
    # eta: rebuilding a value from all of its own fields (or elements) is that value
    if fields:
        f0 = fields[0]
        if f0.op == "fld":
            base = f0.a[0]
            if base.ty == ty and all(f.op == "fld" and f.a[0] is base and f.a[2] == i and f.a[1] == f0.a[1] for i, f in enumerate(fields)):
                if f0.a[1] in (None, 0) and _single(ty):
                    return base
        elif f0.op == "elem" and tinfo(ty).get("k") == "array":
            base = f0.a[0]
            if base.ty == ty and all(f.op == "elem" and f.a[0] is base and isk(f.a[1], i) for i, f in enumerate(fields)):
                return base
    return mk("agg", (variant, fields), ty)


def _single(ty):
    i = tinfo(ty)
    return i.get("k") in ("tuple", "closure") or len(i.get("variants") or [1]) == 1


def nfields(ty, variant=0):
    i = tinfo(ty)
    if i.get("k") == "tuple":
        return list(i["elems"])
    if i.get("k") == "closure":
        return list(i["upvars"])
    v = i.get("variants")
    if v is None or (variant or 0) >= len(v):
        return None
    return [f["ty"] for f in v[variant or 0]["fields"]]


def fname(ty, variant, idx):
    i = tinfo(ty)
    v = i.get("variants")
    try:
        if v:
            return v[variant or 0]["fields"][idx]["name"]
    except IndexError:
        pass
    return str(idx)


def FLD(base, variant, idx, ty):
    o = base.op
    if o == "agg":
        if variant is not None and base.a[0] != variant and tinfo(base.ty).get("akind") == "enum":
            return BOT
        fs = base.a[1]
        return fs[idx] if idx < len(fs) else BOT
    if o == "sw":
        return sw_map(base, lambda x: FLD(x, variant, idx, ty))
    if o in ("bot", "top"):
        return base
    if variant == 0 and _single(base.ty):
        variant = None
    return mk("fld", (base, variant, idx), ty)


def DISCR(v):
    o = v.op
    if o == "agg":
        i = tinfo(v.ty)
        vs = i.get("variants")
        if i.get("akind") == "enum" and vs:
            return K(vs[v.a[0]]["discr"])
        return K(v.a[0] or 0)
    if o == "sw":
        return sw_map(v, DISCR)
    if o in ("bot", "top"):
        return v
    if o == "enumof":       # enum value with a known discriminant expression
        return v.a[0]
    i = tinfo(v.ty)
    vs = i.get("variants")
    if i.get("akind") == "enum" and vs and len(vs) == 1:
        return K(vs[0]["discr"])
    return mk("discr", (v,))


def LEN(v):
    o = v.op
    if o == "agg" and tinfo(v.ty).get("k") == "array":
        return K(len(v.a[1]))
    if o == "seq":
        return ladd([K(1) if p[0] == "1" else LEN(p[1]) for p in v.a])
    if o == "map":
        return v.a[1]
    if o == "repeat":
        return v.a[1]
    if o == "bytes":
        return K(len(v.a[0]))
    if o == "slice":
        return v.a[2]
    if o == "getseq":
        return v.a[1]
    if o == "flat":
        return SUM(v.a[0], v.a[1], LEN(v.a[2]))
    if o == "store":
        return LEN(v.a[0])
    if o == "lossy":        # lossy utf-8 text of bytes: length unknown
        return mk("len", (v,))
    if o == "sw":
        return sw_map(v, LEN)
    if o in ("bot", "top"):
        return v
    t = tinfo(v.ty)
    if t.get("k") == "array" and t.get("len") is not None:
        return K(t["len"])
    return mk("len", (v,))


def elem_ty(v):
    t = tinfo(v.ty)
    if t.get("k") in ("array", "slice"):
        return t["of"]
    if t.get("path") in ("std::vec::Vec", "alloc::vec::Vec", "std::boxed::Box") and t.get("args"):
        a = t["args"][0]
        ai = tinfo(a)
        if ai.get("k") == "slice":
            return ai["of"]
        return a
    if t.get("k") == "str" or t.get("path") in ("std::string::String", "alloc::string::String"):
        return Types.u8
    return None


def ELEM(v, i, ty=None):
    o = v.op
    if o == "agg" and isk(i):
        fs = v.a[1]
        k = i.a[0]
        return fs[k] if 0 <= k < len(fs) else BOT
    if o == "bytes" and isk(i):
        return K(v.a[0][i.a[0]]) if 0 <= i.a[0] < len(v.a[0]) else BOT
    if o == "repeat":
        return v.a[0]
    if o == "map":
        return subst(v.a[2], {IX(v.a[0]): i})
    if o == "slice":
        return ELEM(v.a[0], ladd([v.a[1], i]), ty)
    if o == "seq" and isk(i):
        k = i.a[0]
        ok = True
        for p in v.a:
            if p[0] == "1":
                if k == 0:
                    return p[1]
                k -= 1
            else:
                ln = LEN(p[1])
                if isk(ln):
                    if k < ln.a[0]:
                        return ELEM(p[1], K(k), ty)
                    k -= ln.a[0]
                else:
                    ok = False
                    break
        if ok:
            return BOT
    if o == "seq" and not v.a:
        return BOT
    if o == "seq" and len(v.a) == 1 and v.a[0][0] == "n":
        return ELEM(v.a[0][1], i, ty)
    if o == "store":
        base, j, x = v.a
        if j is i:
            return x
        if isk(i) and isk(j):
            return ELEM(base, i, ty)
    if o == "sw":
        return sw_map(v, lambda x: ELEM(x, i, ty))
    if o in ("bot", "top"):
        return v
    return mk("elem", (v, i), ty if ty is not None else elem_ty(v))


def SEQ(parts, ty=None):
    out = []
    for p in parts:
        if p[0] == "n":
            s = p[1]
            if s.op == "seq":
                out.extend(s.a)
                continue
            if s.op == "agg" and tinfo(s.ty).get("k") == "array":
                out.extend(("1", x) for x in s.a[1])
                continue
            if s.op == "bytes":
                out.extend(("1", K(b)) for b in s.a[0])
                continue
            ln = LEN(s)
            if isk(ln, 0):
                continue
            if isk(ln) and ln.a[0] <= 256:
                out.extend(("1", ELEM(s, K(j))) for j in range(ln.a[0]))
                continue
        out.append(tuple(p))
    if len(out) == 1 and out[0][0] == "n":
        return out[0][1]
    # all elements of one sequence, in order
    if out and all(p[0] == "1" and p[1].op == "elem" for p in out):
        b = out[0][1].a[0]
        if all(p[1].a[0] is b and isk(p[1].a[1], j) for j, p in enumerate(out)) and isk(LEN(b), len(out)):
            return b
    return mk("seq", tuple(out))


def IX(uid):
    return mk("ix", (uid,))


def MAP(uid, n, body):
    ix = IX(uid)
    if body.op == "elem" and body.a[1] is ix and not contains(body.a[0], ix):
        if LEN(body.a[0]) is n:
            return body.a[0]
        return SLICE(body.a[0], K(0), n)
    if not contains(body, ix) and not has_op(body, ("get", "getseq")):
        return REPEAT(body, n)
    if isk(n) and n.a[0] <= 256 and not has_op(body, ("get", "getseq")):
        return SEQ([("1", subst(body, {ix: K(j)})) for j in range(n.a[0])])
    return mk("map", (uid, n, body))


def REPEAT(v, n):
    if isk(n) and n.a[0] <= 256:
        return mk("seq", tuple(("1", v) for _ in range(n.a[0])))
    return mk("repeat", (v, n))


def SLICE(v, off, n):
    if isk(off, 0) and LEN(v) is n:
        return v
    if v.op == "slice":
        return SLICE(v.a[0], ladd([v.a[1], off]), n)
    if isk(off) and isk(n) and n.a[0] <= 256 and v.op in ("agg", "seq", "bytes", "store"):
        xs = [ELEM(v, K(off.a[0] + j)) for j in range(n.a[0])]
        if all(x is not BOT for x in xs):
            return mk("seq", tuple(("1", x) for x in xs))
    if v.op in ("bot", "top"):
        return v
    return mk("slice", (v, off, n))


def SUM(uid, n, body):
    ix = IX(uid)
    if not contains(body, ix):
        return lmul(body, n)
    if isk(n) and n.a[0] <= 256:
        return ladd([subst(body, {ix: K(j)}) for j in range(n.a[0])])
    if n.op == "sw" and _leafk(n) and rng(n)[0] >= 0 and rng(n)[1] <= 1:
        one = subst(body, {ix: K(0)})
        return sw_map(n, lambda x: one if isk(x, 1) else K(0))
    if n.op == "discr" and rng(n)[0] >= 0 and rng(n)[1] <= 1:
        return SW(n, ((0, K(0)),), subst(body, {ix: K(0)}))
    c, ts = lin(body)
    parts = []
    if c:
        parts.append(lmul(K(c), n))
    for t, k in ts.items():
        if contains(t, ix):
            parts.append(lmul(K(k), mk("sum", (uid, n, t))))
        else:
            parts.append(lmul(lmul(K(k), t), n))
    return ladd(parts)


# ---------------------------------------------------------------- linear forms
def lin(n):
    """(constant, {term: coefficient})"""
    if n.op == "k":
        return n.a[0], {}
    if n.op == "lin":
        return n.a[0], dict(n.a[1])
    return 0, {n: 1}


def _glue(ts):
    """big-endian bytes of a sum of byte strings shifted to disjoint, adjacent places; None if it is not one"""
    at = {}
    for t, k in ts.items():
        if k <= 0 or k & (k - 1) or (k.bit_length() - 1) % 8:
            return None
        p = (k.bit_length() - 1) // 8
        bs = t.a[0] if t.op == "cat" else (t,)
        for j, b in enumerate(reversed(bs)):
            if p + j in at:
                return None
            at[p + j] = b
    if len(at) > 16 or max(at) != len(at) - 1:
        return None
    return [at[j] for j in range(len(at) - 1, -1, -1)]


def mklin(c, ts):
    ts = {t: k for t, k in ts.items() if k}
    if not ts:
        return K(c)
    if c == 0 and len(ts) == 1:
        (t, k), = ts.items()
        if k == 1:
            return t
    elif c == 0 and all(t.op in ("cat", "byte") for t in ts):
        bs = _glue(ts)
        if bs is not None:
            return CAT(bs)
    return mk("lin", (c, tuple(sorted(ts.items(), key=lambda x: x[0].id))))


def ladd(xs, neg=()):
    c, ts = 0, {}
    for x in xs:
        if x.op in ("bot", "top"):
            return x
        cc, tt = lin(x)
        c += cc
        for t, k in tt.items():
            ts[t] = ts.get(t, 0) + k
    for x in neg:
        if x.op in ("bot", "top"):
            return x
        cc, tt = lin(x)
        c -= cc
        for t, k in tt.items():
            ts[t] = ts.get(t, 0) - k
    return mklin(c, ts)


def lsub(a, b):
    return ladd([a], [b])


def lmul(a, b):
    if a.op in ("bot", "top"):
        return a
    if b.op in ("bot", "top"):
        return b
    if not isk(a) and isk(b):
        a, b = b, a
    if isk(a):
        c, ts = lin(b)
        k = a.a[0]
        return mklin(c * k, {t: x * k for t, x in ts.items()})
    # product of two symbolic forms: distribute
    ca, ta = lin(a)
    cb, tb = lin(b)
    out = {}
    c = ca * cb
    for t, k in ta.items():
        out[t] = out.get(t, 0) + k * cb
    for t, k in tb.items():
        out[t] = out.get(t, 0) + k * ca
    for t, k in ta.items():
        for u, j in tb.items():
            p = mk("mul", tuple(sorted((t, u), key=lambda x: x.id)))
            out[p] = out.get(p, 0) + k * j
    return mklin(c, out)


# ---------------------------------------------------------------- ranges
def rng(n):
    if n.rng_ is None:
        n.rng_ = (-INF, INF)  # cut cycles (there are none, but be safe)
        n.rng_ = _rng(n)
    return n.rng_


MEM = 1 << 48     # a collection in memory has fewer elements/bytes than this


# ---------------------------------------------------------------- functions of one number that grow evenly
# Terms of +, -, constant multiples, division and remainder by constants, min, max and tests over one
# non-negative integer x satisfy f(x + P) = f(x) + s for some P; that decides ranges and equality exactly.
_qp = {}
QPMAX = 1024


def qp(n):
    """(x, P, s) with n(x + P) = n(x) + s, x None for a constant; None when n is no such function"""
    r = _qp.get(n, 0)
    if r == 0:
        r = _qp[n] = _qp0(n)
    return r


def _comb(qs):
    """a common variable and period"""
    x, P = None, 1
    for q in qs:
        if q is None:
            return None
        if q[0] is not None:
            if x is not None and x is not q[0]:
                return None
            x = q[0]
        P = math.lcm(P, q[1])
    return None if P > QPMAX else (x, P, [q[2] * (P // q[1]) for q in qs])


def _qp0(n):
    o = n.op
    if o == "k":
        return (None, 1, 0)
    if o in ("in", "fld", "elem", "get", "len", "rem"):
        if o in ("in", "fld", "elem") and tinfo(n.ty).get("k") != "int":
            return None
        return (n, 1, 1) if rng(n)[0] >= 0 else None
    if o == "lin":
        c = _comb([qp(t) for t, _ in n.a[1]])
        return c and (c[0], c[1], sum(k * s for (_, k), s in zip(n.a[1], c[2])))
    if o == "bin":
        op, a, b = n.a
        if op in ("Div", "Rem") and isk(b) and b.a[0] > 0:
            m = b.a[0]
        elif op == "And" and isk(b) and b.a[0] > 0 and b.a[0] & (b.a[0] + 1) == 0:
            m = b.a[0] + 1
        else:
            return None
        q = qp(a)
        if q is None or rng(a)[0] < 0:
            return None
        f = m // math.gcd(m, q[2])
        if q[1] * f > QPMAX:
            return None
        return (q[0], q[1] * f, q[2] * f // m if op == "Div" else 0)
    if o in ("min", "max"):
        c = _comb([qp(n.a[0]), qp(n.a[1])])
        return (c[0], c[1], c[2][0]) if c and c[2][0] == c[2][1] else None
    if o in ("ge0", "eq", "not"):
        q = qp(n.a[0])
        return q if q and q[2] == 0 else None
    if o == "sw":
        vs = [v for _, v in n.a[1]] + ([n.a[2]] if n.a[2].op != "bot" else [])
        c = _comb([qp(n.a[0])] + [qp(v) for v in vs])
        if not c or c[2][0] != 0 or any(s != c[2][1] for s in c[2]) and any(s != c[2][1] for s in c[2][1:]):
            return None
        return (c[0], c[1], c[2][1])
    return None


def qval(n, x, v):
    o = n.op
    if n is x:
        return v
    if o == "k":
        return n.a[0]
    if o == "lin":
        return n.a[0] + sum(k * qval(t, x, v) for t, k in n.a[1])
    if o == "bin":
        a, m = qval(n.a[1], x, v), n.a[2].a[0]
        return a // m if n.a[0] == "Div" else a % m if n.a[0] == "Rem" else a & m
    if o == "min":
        return min(qval(n.a[0], x, v), qval(n.a[1], x, v))
    if o == "max":
        return max(qval(n.a[0], x, v), qval(n.a[1], x, v))
    if o == "ge0":
        return int(qval(n.a[0], x, v) >= 0)
    if o == "eq":
        return int(qval(n.a[0], x, v) == n.a[1])
    if o == "not":
        return 1 - qval(n.a[0], x, v)
    if o == "sw":
        k = qval(n.a[0], x, v)
        for c, y in n.a[1]:
            if c == k:
                return qval(y, x, v)
        return qval(n.a[2], x, v)
    raise ValueError(o)


def qrange(n):
    """the exact range of such a function, or None"""
    q = qp(n)
    if q is None or q[0] is None:
        return None
    x, P, s = q
    lo, hi = rng(x)
    if lo in (INF, -INF):
        return None
    try:
        vs = [qval(n, x, v) for v in range(lo, lo + P if hi == INF else min(lo + P, hi + 1))]
        if hi == INF or hi < lo + P:
            if hi == INF and s:
                return (min(vs), INF) if s > 0 else (-INF, max(vs))
            return (min(vs), max(vs))
        ws = [qval(n, x, v) for v in range(hi - P + 1, hi + 1)]
    except ValueError:
        return None
    return (min(vs), max(ws)) if s >= 0 else (min(ws), max(vs))


def qzero(n):
    """n is 0 for every value of its variables"""
    if isk(n, 0):
        return True
    if n.op != "lin" or not has_op(n, ("bin", "min", "max")):
        return False
    gs, rest = sums_of(canon(n))
    if gs:
        return all(qzero(b) for b in gs.values()) and qzero(mklin(n.a[0], dict(rest)))
    g, rest = _parts(n)
    if rest or not g:
        return False
    parts = [mklin(0, t) for t in g.values()]
    # independent parts: each is constant
    rs = [qrange(x) if x.op != "k" else rng(x) for x in parts]
    return all(r is not None and r[0] == r[1] for r in rs) and n.a[0] + sum(r[0] for r in rs) == 0


def sums_of(n):
    """the sums in a linear form joined per index range: {(index, count): joint body}, other terms"""
    gs, rest = {}, []
    for t, k in n.a[1]:
        if t.op == "sum":
            gs.setdefault(t.a[:2], []).append((t.a[2], k))
        else:
            rest.append((t, k))
    return {u: ladd([lmul(K(k), b) for b, k in bs]) for u, bs in gs.items()}, rest


def _parts(n):
    """the terms of a linear form, grouped by the variable they are functions of"""
    g, rest = {}, []
    for t, k in n.a[1]:
        q = qp(t)
        if q is None or q[0] is None:
            rest.append((t, k))
        else:
            g.setdefault(q[0], {})[t] = k
    return g, rest


def _rng(n):
    o = n.op
    if o == "k":
        return (n.a[0], n.a[0])
    if o == "lin" and sum(1 for t, k in n.a[1] if t.op == "sum") > 1 and any(t.op == "sum" and k < 0 for t, k in n.a[1]):
        gs, rest = sums_of(n)
        if len(gs) < sum(1 for t, k in n.a[1] if t.op == "sum"):
            lo, hi = rng(mklin(n.a[0], dict(rest)))
            for b in gs.values():
                r = rng(b)
                x = (0, 0) if r == (0, 0) else (0, MEM) if r[0] >= 0 else (-MEM, 0) if r[1] <= 0 else (-INF, INF)
                lo, hi = lo + x[0], hi + x[1]
            return (lo, hi)
    if o == "lin" and len(n.a[1]) > 1 and has_op(n, ("bin",)):
        g, rest = _parts(n)
        if any(len(t) > 1 and any(x.op == "bin" for x in t) for t in g.values()):
            lo = hi = n.a[0]
            for t in [mklin(0, dict(rest))] + [mklin(0, t) for t in g.values()]:
                if t is n:
                    return qrange(n) or _rng1(n)
                q = qrange(t) if t.op == "lin" and len(t.a[1]) > 1 and has_op(t, ("bin",)) else None
                q = q or rng(t)
                lo, hi = lo + q[0], hi + q[1]
            return (lo, hi)
    if o in ("bin", "min", "max"):
        r = _rng1(n)
        if has_op(n, ("bin",)) and qp(n) and (o != "bin" or n.a[1].op != "fld"):
            q = qrange(n)
            if q:
                return (max(r[0], q[0]), min(r[1], q[1]))
        return r
    return _rng1(n)


def _rng1(n):
    o = n.op
    if o == "lin":
        lo = hi = n.a[0]
        for t, k in n.a[1]:
            a, b = rng(t)
            x, y = (k * a if a not in (INF, -INF) else (a if k > 0 else -a)), (k * b if b not in (INF, -INF) else (b if k > 0 else -b))
            if k < 0:
                x, y = y, x
            lo, hi = lo + x, hi + y
        return (lo, hi)
    if o == "mul":
        a, b = rng(n.a[0]), rng(n.a[1])
        if a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], a[1] * b[1] if a[1] and b[1] else 0)
        return (-INF, INF)
    if o == "len":
        return (0, MEM)
    if o == "sum":
        b = rng(n.a[2])
        return (0, MEM) if b[0] >= 0 else (-INF, INF)
    if o == "discr":
        i = tinfo(n.a[0].ty)
        vs = i.get("variants")
        if i.get("akind") == "enum" and vs:
            ds = [v["discr"] for v in vs]
            return (min(ds), max(ds))
        return (-INF, INF)
    if o == "sw":
        los, his = [], []
        test = n.a[0].a[0] if n.a[0].op == "ge0" else None
        for k, v in n.a[1]:
            if v.op != "bot":
                a = rng(v) if test is None else _rng_under(v, _neg(test) if k == 0 else lin(test))
                los.append(a[0]); his.append(a[1])
        if n.a[2].op != "bot":
            a = rng(n.a[2]) if test is None else _rng_under(n.a[2], lin(test) if any(k == 0 for k, _ in n.a[1]) else _neg(test))
            los.append(a[0]); his.append(a[1])
        return (min(los), max(his)) if los else (-INF, INF)
    if o == "trunc":
        b, s, _ = n.a
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    if o == "get":
        _, kind, w = n.a[:3]
        if kind == "u":
            return (0, (1 << (8 * w)) - 1)
        if kind == "i":
            return (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
        return (-INF, INF)
    if o in ("ge0", "eq", "not", "fcmp", "and", "or"):
        return (0, 1)
    if o == "tobits":
        b = tinfo(n.a[0].ty).get("bits") if tinfo(n.a[0].ty).get("k") == "float" else None
        return (0, (1 << (b or 64)) - 1)
    if o == "ix":
        b = ix_bounds.get(n.a[0])
        if b is not None:
            r = rng(b)
            return (0, max(0, r[1] - 1))
        return (0, MEM)
    if o == "bv":
        return (0, MEM)
    if o in ("rem", "wlen", "markpos"):
        return (0, MEM)
    if o == "cap":
        return (0, (1 << 63) - 1)
    if o == "byte":
        return (0, 255)
    if o == "cat":
        return (0, (1 << (8 * len(n.a[0]))) - 1)
    if o == "bin":
        return _binrng(n)
    if o == "min":
        a, b = rng(n.a[0]), rng(n.a[1])
        return (min(a[0], b[0]), min(a[1], b[1]))
    if o == "max":
        a, b = rng(n.a[0]), rng(n.a[1])
        return (max(a[0], b[0]), max(a[1], b[1]))
    if o == "clock":
        return {"minute": (0, 59), "second": (0, 59), "nanosecond": (0, 1_999_999_999), "hour": (0, 23),
                "subsec_nanos": (0, 1_999_999_999), "subsec_micros": (0, 1_999_999), "subsec_millis": (0, 1_999)}.get(n.a[0], trange(n.ty))
    if n.ty is not None:
        return trange(n.ty)
    return (-INF, INF)


def _binrng(n):
    op, a, b = n.a[0], n.a[1], n.a[2]
    ra, rb = rng(a), rng(b)
    if op == "Div" and rb[0] > 0 and ra[0] >= 0:
        return (ra[0] // rb[1] if rb[1] != INF else 0, ra[1] // rb[0] if ra[1] != INF else INF)
    if op == "Rem" and rb[0] > 0 and ra[0] >= 0:
        return (0, min(ra[1], rb[1] - 1))
    if op == "And":
        hi = INF
        if ra[0] >= 0:
            hi = min(hi, ra[1])
        if rb[0] >= 0:
            hi = min(hi, rb[1])
        return (0, hi) if hi != INF else (trange(n.ty) if n.ty is not None else (-INF, INF))
    if op in ("Or", "Xor") and ra[0] >= 0 and rb[0] >= 0 and INF not in (ra[1], rb[1]):
        return (0, (1 << max(int(ra[1]).bit_length(), int(rb[1]).bit_length())) - 1)
    if op == "Shr" and ra[0] >= 0 and isk(b):
        return (ra[0] >> b.a[0] if ra[0] != INF else 0, ra[1] >> b.a[0] if ra[1] != INF else INF)
    if op == "Shl" and ra[0] >= 0 and isk(b) and ra[1] != INF:
        r = (ra[0] << b.a[0], ra[1] << b.a[0])
        t = trange(n.ty)
        return r if r[1] <= t[1] else t
    return trange(n.ty) if n.ty is not None else (-INF, INF)


ix_bounds = {}


# ---------------------------------------------------------------- comparisons, switches
def NOT(c):
    if c.op == "k":
        return K(0 if c.a[0] else 1)
    if c.op == "not":
        return c.a[0]
    if c.op == "ge0":
        return GE0(lsub(K(-1), c.a[0]))
    if c.op == "sw":
        return sw_map(c, NOT)
    if c.op in ("bot", "top"):
        return c
    return mk("not", (c,))


def GE0(l):
    if l.op in ("bot", "top"):
        return l
    lo, hi = rng(l)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    if l.op == "sw" and _leafk(l):
        return sw_map(l, GE0)
    # a one-variable form k*t + c over a switch of constants
    c, ts = lin(l)
    if len(ts) == 1:
        (t, k), = ts.items()
        if t.op == "sw" and _leafk(t):
            return sw_map(t, lambda x: GE0(mklin(c, {}) if False else ladd([K(c), lmul(K(k), x)])))
        if t.op == "discr" and rng(t)[1] - rng(t)[0] <= 3:
            return SW(t, tuple((v, TRUE if c + k * v >= 0 else FALSE) for v in range(rng(t)[0], rng(t)[1])), TRUE if c + k * rng(t)[1] >= 0 else FALSE)
        # divide by |k|
        if abs(k) > 1:
            s = abs(k)
            return mk("ge0", (mklin(c // s, {t: k // s}),))
    return mk("ge0", (l,))


def _leafk(n):
    return all(v.op in ("k", "bot") for _, v in n.a[1]) and n.a[2].op in ("k", "bot")


def EQ(a, b):
    """integer equality"""
    if a is b and not has_op(a, ("top",)):
        return TRUE
    d = lsub(a, b)
    if d.op in ("bot", "top"):
        return d
    if d.op == "k":
        return TRUE if d.a[0] == 0 else FALSE
    lo, hi = rng(d)
    if lo > 0 or hi < 0:
        return FALSE
    c, ts = lin(d)
    if len(ts) == 1:
        (t, k), = ts.items()
        if c % k:
            return FALSE
        v = -c // k
        lo, hi = rng(t)
        if v < lo or v > hi:
            return FALSE
        if t.op == "sw" and _leafk(t):
            return sw_map(t, lambda x: x if x.op == "bot" else K(1 if x.a[0] == v else 0))
        if t.op in ("ge0", "eq", "not", "fcmp"):
            return t if v == 1 else NOT(t)
        return mk("eq", (t, v))
    # orient
    first = min(ts.items(), key=lambda x: x[0].id)
    if first[1] < 0:
        d = lmul(K(-1), d)
    return mk("eq", (d, 0))


def sw_map(s, f):
    scr, cases, d = s.a
    return SW(scr, tuple((k, f(v)) for k, v in cases), f(d))


def _neg(l):
    """not (l >= 0) is  -l - 1 >= 0"""
    c, ts = lin(l)
    return (-c - 1, {t: -k for t, k in ts.items()})


def _rng_under(v, l):
    """range of v where l >= 0 is known"""
    lo, hi = rng(v)
    lc, lt = l
    if not lt or v.op in ("bot", "top", "k", "agg"):
        return lo, hi
    c, ts = lin(v)
    if ts == lt:                       # v = l + (c - lc)
        lo = max(lo, c - lc)
    elif len(ts) == len(lt) and all(lt.get(t) == -k for t, k in ts.items()):
        hi = min(hi, c + lc)           # v = c + lc - l
    return lo, hi


def _follows(l, p):
    """does l >= 0 imply p >= 0, both forms over the same terms?"""
    lc, lt = l if isinstance(l, tuple) else lin(l)
    pc, pt = p if isinstance(p, tuple) else lin(p)
    return pc >= lc and lt == pt


def _under(v, l):
    """v where l >= 0 is known"""
    if v.op == "ge0":
        if _follows(l, v.a[0]):
            return TRUE
        if _follows(l, _neg(v.a[0])):
            return FALSE
    elif v.op == "sw" and v.a[0].op == "ge0":
        if _follows(l, v.a[0].a[0]):
            return dict(v.a[1]).get(1, v.a[2])
        if _follows(l, _neg(v.a[0].a[0])):
            return dict(v.a[1]).get(0, v.a[2])
    elif v.op == "trunc":
        bits, signed, x = v.a
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        a, b = rng(x)
        c, ts = lin(x)
        neg = (hi - c, {t: -k for t, k in ts.items()})
        if (a >= lo or _follows(l, (c - lo, ts))) and (b <= hi or _follows(l, neg)):
            return x
    return v


def SW(scr, cases, d):
    """switch on integer scrutinee; cases is a tuple of (int, node)"""
    if scr.op == "k":
        for k, v in cases:
            if k == scr.a[0]:
                return v
        return d
    if scr.op in ("top", "bot"):
        vals = [v for _, v in cases] + [d]
        live = [v for v in vals if v.op != "bot"]
        if live and all(v is live[0] for v in live):
            return live[0]
        return scr if scr.op == "bot" else mk("top", ("switch-on-top", scr.id))
    cases = tuple(c for c in cases)
    if scr.op == "eq":
        t, v = scr.a
        tt = dict(cases).get(1, d)
        ff = dict(cases).get(0, d)
        return SW(t, ((v, tt),), ff)
    if scr.op == "not":
        x = scr.a[0]
        m = dict(cases)
        return SW(x, ((0, m.get(1, d)),), m.get(0, d))
    if scr.op == "sw" and _leafk(scr):
        m = dict(cases)

        def pick(x):
            return x if x.op == "bot" else m.get(x.a[0], d)
        return sw_map(scr, pick)
    if scr.op == "lin" and len(scr.a[1]) == 1:
        c, ts = lin(scr)
        (t, k), = ts.items()
        return SW(t, tuple(((v - c) // k, x) for v, x in cases if (v - c) % k == 0), d)
    lo, hi = rng(scr)
    m = {}
    for k, v in cases:
        if lo <= k <= hi and k not in m:
            m[k] = v
    # nested switch on the same scrutinee
    if d.op == "sw" and d.a[0] is scr:
        for k, v in d.a[1]:
            m.setdefault(k, v)
        d = d.a[2]
    for k, v in list(m.items()):
        if v.op == "sw" and v.a[0] is scr:
            m[k] = dict(v.a[1]).get(k, v.a[2])
    # exhausted domain: the default is unreachable
    if hi - lo < 1 << 16 and len(m) == hi - lo + 1:
        d = BOT
    if scr.op == "discr" and d.op != "bot":
        vs = tinfo(scr.a[0].ty).get("variants")
        if vs and len(m) >= len(vs) and all(v["discr"] in m for v in vs):
            d = BOT
    if scr.op == "discr":
        vs = tinfo(scr.a[0].ty).get("variants")
        if vs and tinfo(scr.a[0].ty).get("akind") == "enum":
            ok = {v["discr"] for v in vs}
            m = {k: v for k, v in m.items() if k in ok}
    m = {k: v for k, v in m.items() if v.op != "bot"}
    if not m:
        return d
    if d.op == "bot":
        # choose a canonical default among the cases: the last key
        vals = list(m.values())
        if all(v is vals[0] for v in vals):
            return vals[0]
        if len(m) == 2 and set(m) == {0, 1}:
            if m[0] is FALSE and m[1] is TRUE and rng(scr) == (0, 1):
                return scr
            d = m.pop(1)
        # booleans/enums otherwise keep an unreachable default
    m = {k: v for k, v in m.items() if v is not d}
    if not m:
        return d
    if len(m) == 1 and 0 in m and m[0] is FALSE and d is TRUE and rng(scr) == (0, 1):
        return scr
    if len(m) == 1 and 1 in m and rng(scr) == (0, 1):
        m, d = {0: d}, m[1]
        if m[0] is FALSE and d is TRUE:
            return scr
    if scr.op == "ge0" and set(m) == {0}:
        l = scr.a[0]
        x, y = _under(m[0], _neg(l)), _under(d, l)
        if x is y:
            return x
        if x.op == "ge0" and (y is TRUE and _follows(l, x.a[0]) or y is FALSE and _follows(x.a[0], _neg(l))):
            return x
        if y.op == "ge0" and (x is FALSE and _follows(y.a[0], l) or x is TRUE and _follows(_neg(l), y.a[0])):
            return y
        if x is not m[0] or y is not d:
            return SW(scr, ((0, x),), y)
    if len(m) == 1 and 0 in m and isk(m[0], 1) and isk(d, 0) and scr.op == "ge0":
        return NOT(scr)
    # a test that only singles out one value of a term, on which both arms agree: if n >= 1 {f(n)} else {f(0)}
    if scr.op == "ge0" and len(m) == 1 and 0 in m and d.op != "bot" and rng(scr.a[0])[0] == -1:
        c, ts = lin(scr.a[0])
        if len(ts) == 1:
            (t, k), = ts.items()
            if (-1 - c) % k == 0 and contains(d, t) and subst(d, {t: K((-1 - c) // k)}) is m[0]:
                return d
    if scr.op == "lin" and len(m) == 1:
        (key, one), = m.items()
        if isk(one, 1) and isk(d, 0):
            return EQ(scr, K(key))
        if isk(one, 0) and isk(d, 1):
            return NOT(EQ(scr, K(key)))
        # if a == b {a} else {b}
        if d.op != "bot" and one.op not in ("bot", "top"):
            c, ts = lin(scr)
            rest = lsub(scr, K(key))
            for t, k in ts.items():
                if k in (1, -1) and t.op in ("fld", "in", "len", "get", "elem") and (one is t or d is t):
                    sol = ladd([t, lmul(K(-k), rest)])
                    if not contains(sol, t) and (sol if one is t else subst(one, {t: sol})) is (sol if d is t else subst(d, {t: sol})):
                        return d
    cs = tuple(sorted(m.items()))
    # identity table over a discriminant: sw(discr(v), k -> variant k) is v
    if scr.op == "discr":
        v = scr.a[0]
        ok = True
        for k, x in cs:
            if not (x.op == "agg" and x.ty == v.ty and not x.a[1] and tinfo(x.ty)["variants"][x.a[0]]["discr"] == k):
                ok = False
                break
        if ok and cs:
            vs = tinfo(v.ty).get("variants") or []
            missing = [w["discr"] for w in vs if w["discr"] not in m]
            if not missing or (d.op == "agg" and d.ty == v.ty and missing == [DISCR(d).a[0]]) or (d.op == "bot"):
                return v
    # identity table on numbers
    if all(x.op == "k" and x.a[0] == k for k, x in cs):
        if d is scr:
            return scr
        if d.op == "bot":
            return scr
        if d.op == "k":
            lo, hi = rng(scr)
            if lo <= d.a[0] <= hi and hi - lo + 1 == len(cs) + 1 and d.a[0] not in m:
                return scr
            if scr.op == "discr":
                vs = tinfo(scr.a[0].ty).get("variants") or []
                if all(w["discr"] in m or w["discr"] == d.a[0] for w in vs):
                    return scr
    # merge aggregates of one shape
    allv = [x for _, x in cs] + ([d] if d.op != "bot" else [])
    a0 = allv[0]
    if a0.op == "agg" and a0.a[1] and all(x.op == "agg" and x.ty == a0.ty and x.a[0] == a0.a[0] and len(x.a[1]) == len(a0.a[1]) for x in allv):
        nf = len(a0.a[1])
        return AGG(a0.ty, a0.a[0], [SW(scr, tuple((k, x.a[1][j]) for k, x in cs), d.a[1][j] if d.op != "bot" else BOT) for j in range(nf)])
    # if a < b {a} else {b}
    if scr.op == "ge0" and len(cs) == 1 and cs[0][0] == 0 and _intish(cs[0][1]) and _intish(d):
        f = cs[0][1]
        x = lsub(f, d)
        if any(lsub(x, scr.a[0]) is K(j) for j in (0, 1)):
            return MINMAX("min", f, d)
        x = lsub(d, f)
        if any(lsub(x, scr.a[0]) is K(j) for j in (0, 1)):
            return MINMAX("max", f, d)
    return mk("sw", (scr, cs, d))


def _intish(n):
    return n.op in ("k", "lin", "len", "mul", "min", "max", "sum") or tinfo(n.ty).get("k") == "int"


def ITE(c, t, f):
    if t is f:
        return t
    return SW(c, ((0, f),), t)


def AND(a, b):
    return ITE(a, b, FALSE)


def OR(a, b):
    return ITE(a, TRUE, b)


# ---------------------------------------------------------------- traversal
def kids(n):
    o, a = n.op, n.a
    if o in ("k", "in", "ix", "tymark", "opaque", "chunk0", "bv", "top", "bot", "get", "bytes", "float", "fnval", "unit", "buf"):
        return ()
    if o == "agg":
        return a[1]
    if o == "sw":
        return (a[0],) + tuple(v for _, v in a[1]) + (a[2],)
    if o == "lin":
        return tuple(t for t, _ in a[1])
    if o == "seq":
        return tuple(p[1] for p in a)
    if o == "ref":
        return tuple(x for p in a[1] for x in p if isinstance(x, N))
    return tuple(x for x in _flat(a) if isinstance(x, N))


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


def MINMAX(o, a, b):
    if a is b:
        return a
    if a.op in ("top", "bot"):
        return a
    if b.op in ("top", "bot"):
        return b
    lo, hi = rng(lsub(a, b))
    if lo >= 0:
        return b if o == "min" else a
    if hi <= 0:
        return a if o == "min" else b
    return mk(o, tuple(sorted((a, b), key=lambda x: x.id)))


def rebuild(n, f):
    """reconstruct n with children mapped by f, renormalising"""
    o, a = n.op, n.a
    if o == "agg":
        return AGG(n.ty, a[0], [f(x) for x in a[1]])
    if o == "fld":
        return FLD(f(a[0]), a[1], a[2], n.ty)
    if o == "discr":
        return DISCR(f(a[0]))
    if o == "len":
        return LEN(f(a[0]))
    if o == "elem":
        return ELEM(f(a[0]), f(a[1]), n.ty)
    if o == "sw":
        return SW(f(a[0]), tuple((k, f(v)) for k, v in a[1]), f(a[2]))
    if o == "lin":
        return ladd([K(a[0])] + [lmul(K(k), f(t)) for t, k in a[1]])
    if o == "mul":
        return lmul(f(a[0]), f(a[1]))
    if o in ("min", "max"):
        return MINMAX(o, f(a[0]), f(a[1]))
    if o == "ge0":
        return GE0(f(a[0]))
    if o == "eq":
        return EQ(f(a[0]), K(a[1]))
    if o == "not":
        return NOT(f(a[0]))
    if o == "seq":
        return SEQ([(p[0], f(p[1])) for p in a])
    if o == "map":
        c = f(a[1])
        return SEQ([], n.ty) if isk(c, 0) else MAP(a[0], c, f(a[2]))
    if o == "sum":
        c = f(a[1])
        return K(0) if isk(c, 0) else SUM(a[0], c, f(a[2]))
    if o == "repeat":
        return REPEAT(f(a[0]), f(a[1]))
    if o == "slice":
        return SLICE(f(a[0]), f(a[1]), f(a[2]))
    if o == "trunc":
        return TRUNC(a[0], a[1], f(a[2]))
    if o == "bin":
        return BIN(a[0], f(a[1]), f(a[2]), n.ty)
    if o == "lossy":
        return LOSSY(f(a[0]))
    if o == "tobits":
        return TOBITS(f(a[0]))
    if o == "frombits":
        return FROMBITS(a[0], f(a[1]), n.ty)
    if o == "getseq":
        return mk("getseq", (a[0], f(a[1])), n.ty)
    if o == "enumof":
        return mk(o, (f(a[0]),), n.ty)
    if o == "byte":
        return BYTE(f(a[0]), a[1], a[2])
    if o == "cat":
        return CAT([f(x) for x in a[0]])
    if o == "ref":
        return mk("ref", (a[0], tuple(tuple(f(x) if isinstance(x, N) else x for x in p) for p in a[1])), n.ty)
    return mk(o, _rmap(a, f), n.ty)


def _rmap(a, f):
    return tuple(f(x) if isinstance(x, N) else (_rmap(x, f) if isinstance(x, tuple) else x) for x in a)


def subst(n, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(n)
    if r is not None:
        return r
    ks = kids(n)
    if not ks and n.op not in ("lin",):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    changed = False
    for k in ks:
        if subst(k, m, memo) is not k:
            changed = True
    r = rebuild(n, lambda x: subst(x, m, memo)) if changed else n
    memo[n] = r
    return r


def contains(n, x):
    return x in reach(n)


_reach_cache = {}


def reach(n):
    """all nodes reachable from n (frozenset, cached)"""
    r = _reach_cache.get(n)
    if r is None:
        s = {n}
        for k in kids(n):
            s |= reach(k)
        r = frozenset(s)
        if len(_reach_cache) > 400000:
            _reach_cache.clear()
        _reach_cache[n] = r
    return r


def ops_of(n):
    """the set of operators occurring in n (cached)"""
    if n.fl is None:
        s = {n.op}
        for k in kids(n):
            s |= ops_of(k)
        n.fl = frozenset(s)
    return n.fl


def has_op(n, ops):
    s = ops_of(n)
    return any(o in s for o in ops)


# ---------------------------------------------------------------- casts and operators
def TRUNC(bits, signed, v):
    if v.op in ("bot", "top"):
        return v
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    a, b = rng(v)
    if a >= lo and b <= hi:
        return v
    if v.op == "k":
        x = v.a[0] & ((1 << bits) - 1)
        if signed and x >> (bits - 1):
            x -= 1 << bits
        return K(x)
    if v.op == "sw" and _leafk(v):
        return sw_map(v, lambda x: TRUNC(bits, signed, x))
    if v.op == "trunc" and v.a[0] >= bits:
        return TRUNC(bits, signed, v.a[2])
    if v.op == "cat" and not signed and bits % 8 == 0 and bits // 8 < len(v.a[0]):
        return CAT(v.a[0][len(v.a[0]) - bits // 8:])
    return mk("trunc", (bits, signed, v))


def to_type(v, ty):
    """integer value v converted (as / wrapping) to integer type ty"""
    i = tinfo(ty)
    if i.get("k") == "int":
        return TRUNC(i["bits"], i["signed"], v)
    if i.get("k") == "bool":
        return v
    if i.get("k") == "char":
        return v
    return v


def BIN(op, a, b, ty):
    """integer operators other than + - * (those are linear)"""
    if a.op in ("bot", "top"):
        return a
    if b.op in ("bot", "top"):
        return b
    if op in ("And", "Or", "Xor") and rng(a) == (0, 1) and rng(b) == (0, 1) and tinfo(ty).get("k") == "bool":
        if op == "And":
            return AND(a, b)
        if op == "Or":
            return OR(a, b)
        return ITE(a, NOT(b), b)
    if isk(a) and isk(b):
        x, y = a.a[0], b.a[0]
        r = None
        if op == "And":
            r = x & y
        elif op == "Or":
            r = x | y
        elif op == "Xor":
            r = x ^ y
        elif op == "Shl":
            r = x << y if 0 <= y < 128 else None
        elif op == "Shr":
            r = x >> y if 0 <= y < 128 else None
        elif op == "Div" and y:
            r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
        elif op == "Rem" and y:
            r = abs(x) % abs(y) * (1 if x >= 0 else -1)
        if r is not None:
            return to_type(K(r), ty)
    if op in ("And", "Or", "Xor") and isk(a):
        a, b = b, a
    if isk(b):
        y = b.a[0]
        if op == "And" and y == 0:
            return K(0)
        if op in ("Or", "Xor", "Shl", "Shr") and y == 0:
            return a
        if op == "Div" and y == 1:
            return a
        if op == "And":
            lo, hi = rng(a)
            if lo >= 0 and hi != INF and y >= 0 and (y & (y + 1)) == 0 and hi <= y:
                return a
            if lo >= 0 and y >= 0 and (y & (y + 1)) == 0:
                return TRUNC(y.bit_length(), False, a) if y.bit_length() in (8, 16, 32, 64) else mk("bin", (op, a, b), ty)
        if op == "Shr" and rng(a)[0] >= 0:
            return BIN("Div", a, K(1 << y), ty)
        if op == "Shl" and rng(a)[0] >= 0:
            r = lmul(a, K(1 << y))
            if rng(r)[1] <= trange(ty)[1]:
                return r
            return to_type(r, ty)
        if op in ("Div", "Rem") and a.op == "cat" and y > 1 and (y & (y - 1)) == 0 and (y.bit_length() - 1) % 8 == 0:
            n = (y.bit_length() - 1) // 8
            if n >= len(a.a[0]):
                return K(0) if op == "Div" else a
            return CAT(a.a[0][:-n] if op == "Div" else a.a[0][-n:])
        if op == "Div" and y > 0:
            lo, hi = rng(a)
            if lo >= 0 and hi < y:
                return K(0)
            c, ts = lin(a)
            if c % y == 0 and all(k % y == 0 for k in ts.values()) and lo >= 0:
                return mklin(c // y, {t: k // y for t, k in ts.items()})
            if a.op == "bin" and a.a[0] == "Div" and isk(a.a[2]):
                return BIN("Div", a.a[1], K(a.a[2].a[0] * y), ty)
        if op == "Rem" and y > 0:
            lo, hi = rng(a)
            if lo >= 0 and hi < y:
                return a
    # x | y with disjoint bits is x + y
    if op in ("Or", "Xor") and _disjoint(a, b):
        return ladd([a, b])
    if a.op == "sw" and _leafk(a) and isk(b):
        return sw_map(a, lambda x: BIN(op, x, b, ty))
    if op in ("And", "Or", "Xor") and a.id > b.id:
        a, b = b, a
    return mk("bin", (op, a, b), ty)


def _disjoint(a, b):
    def low_zero(n):
        c, ts = lin(n)
        ks = [abs(c)] if c else []
        ks += [abs(k) for k in ts.values()]
        if not ks:
            return 128
        z = 128
        for k in ks:
            z = min(z, (k & -k).bit_length() - 1)
        return z
    ra, rb = rng(a), rng(b)
    if ra[0] < 0 or rb[0] < 0 or INF in (ra[1], rb[1]):
        return False
    return rb[1] < (1 << low_zero(a)) or ra[1] < (1 << low_zero(b))


def TOBITS(x):
    if x.op == "frombits":
        return x.a[1]
    if x.op == "float":
        return K(x.a[0])
    if x.op in ("bot", "top"):
        return x
    return mk("tobits", (x,))


def FROMBITS(w, x, ty=None):
    if x.op == "tobits":
        return x.a[0]
    if x.op in ("bot", "top"):
        return x
    if x.op == "k":
        return mk("float", (x.a[0],), ty)
    return mk("frombits", (w, x), ty)


def LOSSY(x):
    return mk("lossy", (x,))


# ---------------------------------------------------------------- alpha-canonical form
def canon(n, memo=None):
    """rename bound loop indices to de Bruijn levels by height, so equal up to renaming is identity"""
    if memo is None:
        memo = {}
    if not has_op(n, ("map", "sum")):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if n.op in ("map", "sum"):
        cnt, body = canon(n.a[1], memo), canon(n.a[2], memo)
        h = bvheight(body)
        body = subst(body, {IX(n.a[0]): IX(-1 - h)})
        r = mk(n.op, (-1 - h, cnt, body), n.ty)
    else:
        r = rebuild(n, lambda x: canon(x, memo)) if kids(n) else n
    memo[n] = r
    return r


def bvheight(n):
    h = 0
    for x in reach(n):
        if x.op == "ix" and x.a[0] < 0:
            h = max(h, -x.a[0])
    return h


# ---------------------------------------------------------------- printing
def show(n, d=0):
    if not isinstance(n, N):
        return repr(n)
    o, a = n.op, n.a
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    if o == "k":
        return str(a[0])
    if o == "in":
        return a[0]
    if o == "fld":
        b = a[0]
        bt = b.ty
        return f"{s(b)}.{fname(bt, a[1], a[2]) if a[1] is None else _vname(bt, a[1]) + '.' + fname(bt, a[1], a[2])}"
    if o == "agg":
        i = tinfo(n.ty)
        nm = i.get("name", "").split("::")[-1][:40]
        if i.get("akind") == "enum":
            nm += "::" + _vname(n.ty, a[0])
        if not a[1]:
            return nm
        return nm + "{" + ", ".join(s(x) for x in a[1]) + "}"
    if o == "lin":
        out = []
        for t, k in a[1]:
            out.append((f"{k}*" if k not in (1, -1) else ("-" if k == -1 else "")) + s(t))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if o == "elem":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "len":
        return f"len({s(a[0])})"
    if o == "ge0":
        return f"[{s(a[0])} >= 0]"
    if o == "eq":
        return f"[{s(a[0])} == {a[1]}]"
    if o == "sw":
        cs = ", ".join(f"{k}=>{s(v)}" for k, v in a[1][:6]) + (f", …{len(a[1])} cases" if len(a[1]) > 6 else "")
        return f"match {s(a[0])} {{{cs}, _=>{s(a[2])}}}"
    if o == "trunc":
        return f"({s(a[2])} as {'i' if a[1] else 'u'}{a[0]})"
    if o == "get":
        return f"read{a[2]}#{a[0]}"
    if o == "ix":
        return f"i{a[0]}"
    if o == "bv":
        return f"i.{a[0]}"
    if o == "bytes":
        return repr(bytes(a[0]))
    if o == "seq":
        return "[" + ", ".join((s(x) if k == "1" else "*" + s(x)) for k, x in a) + "]"
    if o == "top":
        return f"?{a[0]}"
    if o == "ref":
        return f"&{a[0]}" + "".join("." + ",".join(str(y) if not isinstance(y, N) else s(y) for y in p) for p in a[1])
    return o + "(" + ", ".join(s(x) if isinstance(x, N) else (show_t(x, d)) for x in a) + ")"


def show_t(x, d):
    if isinstance(x, tuple):
        return "(" + ",".join(show(y, d + 1) if isinstance(y, N) else show_t(y, d) for y in x) + ")"
    return str(x)


def _vname(ty, v):
    try:
        return tinfo(ty)["variants"][v or 0]["name"]
    except (KeyError, IndexError, TypeError):
        return str(v)
