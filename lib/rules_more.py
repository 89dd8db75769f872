"""C23 (vector arithmetic), C24 (fresh values), C25 (equality and copies)."""
import math
import random
import struct
from fractions import Fraction
from base import *
from ev import Env, Dead, Undef


# ------------------------------------------------------------------------------- C23
class Odd(Exception):
    pass


def fconst(n):
    w = tinfo(n.ty).get("bits", 64)
    return struct.unpack(">f" if w == 32 else ">d", n.a[0].to_bytes(w // 8, "big"))[0]


class Rat:
    """quotient of polynomials over the rationals; monomials are sorted tuples of (atom, exponent)"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else {(): Fraction(1)}

    def key(self):
        return (tuple(sorted(self.n.items(), key=str)), tuple(sorted(self.d.items(), key=str)))


ROOT = {}      # atom -> radicand polynomial


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            e = dict(m1)
            for x, k in m2:
                e[x] = e.get(x, 0) + k
            extra = None
            for x in list(e):
                if x in ROOT and e[x] >= 2:
                    q = e[x] // 2
                    e[x] -= 2 * q
                    if not e[x]:
                        del e[x]
                    p = {(): Fraction(1)}
                    for _ in range(q):
                        p = pmul(p, ROOT[x])
                    extra = p if extra is None else pmul(extra, p)
            m = tuple(sorted(e.items(), key=str))
            t = {m: c1 * c2}
            if extra is not None:
                t = pmul(t, extra)
            r = padd(r, t)
    return r


def rat(n):
    o, a = n.op, n.a
    if o == "k":
        return Rat({(): Fraction(n.a[0])} if n.a[0] else {})
    if o == "float":
        v = fconst(n)
        if not math.isfinite(v):
            raise Odd(show(n))
        return Rat({(): Fraction(v)} if v else {})
    if o in ("fld", "in", "elem"):
        return Rat({((n.id if hasattr(n, "id") else n, 1),): Fraction(1)})
    if o == "fbin":
        x, y = rat(a[1]), rat(a[2])
        if a[0] in ("Add", "Sub"):
            return Rat(padd(pmul(x.n, y.d), pmul(y.n, x.d), 1 if a[0] == "Add" else -1), pmul(x.d, y.d))
        if a[0] == "Mul":
            return Rat(pmul(x.n, y.n), pmul(x.d, y.d))
        if a[0] == "Div":
            if not y.n:
                raise Odd("division by zero")
            return Rat(pmul(x.n, y.d), pmul(x.d, y.n))
    if o == "fcast" and a[0] == "FloatToFloat" or o == "fcast" and len(a) == 2 and a[0] == "IntToFloat" and isk(a[1]):
        return rat(a[1])
    if o == "fun":
        nm = str(a[0])
        if nm == "Neg" or nm.endswith("::neg"):
            x = rat(a[1])
            return Rat(padd({}, x.n, -1), x.d)
        if nm.endswith("mul_add") and len(a) == 4:
            return rat(mk("fbin", ("Add", mk("fbin", ("Mul", a[1], a[2]), n.ty), a[3]), n.ty))
        if nm.endswith("::powi") and isk(a[2]) and 0 <= a[2].a[0] <= 6:
            x = rat(a[1])
            r = Rat({(): Fraction(1)})
            for _ in range(a[2].a[0]):
                r = Rat(pmul(r.n, x.n), pmul(r.d, x.d))
            return r
        if nm.endswith("::recip"):
            x = rat(a[1])
            return Rat(x.d, x.n)
        if nm.endswith("::sqrt"):
            x = rat(a[1])
            return root(x)
        if nm.endswith("::hypot"):
            x, y = rat(a[1]), rat(a[2])
            return root(Rat(padd(pmul(pmul(x.n, x.n), pmul(y.d, y.d)), pmul(pmul(y.n, y.n), pmul(x.d, x.d))), pmul(pmul(x.d, x.d), pmul(y.d, y.d))))
    raise Odd(show(n)[:80])


def root(x):
    if list(x.d) != [()]:
        raise Odd("root of a quotient")
    c = x.d[()]
    p = {m: k / c for m, k in x.n.items()}
    at = ("root", tuple(sorted(((str(m), m, k) for m, k in p.items()), key=lambda t: t[0])))
    at = ("root", str(at))
    ROOT[at] = p
    return Rat({((at, 1),): Fraction(1)})


def rsame(x, y):
    return padd(pmul(x.n, y.d), pmul(y.n, x.d), -1) == {}


def sumof(xs):
    r = xs[0]
    for x in xs[1:]:
        r = Rat(padd(pmul(r.n, x.d), pmul(x.n, r.d)), pmul(r.d, x.d))
    return r


def times(x, y, s=1):
    return Rat({m: c * s for m, c in pmul(x.n, y.n).items()}, pmul(x.d, y.d))


def minus(x, y):
    return Rat(padd(pmul(x.n, y.d), pmul(y.n, x.d), -1), pmul(x.d, y.d))


def f32(x):
    try:
        return struct.unpack(">f", struct.pack(">f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fev(n, vals):
    """value of a float node at a point, in the precision of its type"""
    v = fev_(n, vals)
    if isinstance(v, float):
        t = tinfo(n.ty) if n.ty is not None else {}
        if t.get("k") == "float" and t.get("bits") == 32:
            return f32(v)
    return v


def fev_(n, vals):
    o, a = n.op, n.a
    if n in vals:
        return vals[n]
    if o == "k":
        return float(a[0])
    if o == "float":
        return fconst(n)
    if o == "fbin":
        x, y = fev(a[1], vals), fev(a[2], vals)
        if a[0] == "Div":
            return x / y if y else (math.nan if x == 0 or x != x else math.copysign(math.inf, x))
        return {"Add": x + y, "Sub": x - y, "Mul": x * y}[a[0]]
    if o == "fun":
        nm = str(a[0])
        xs = [fev(x, vals) for x in a[1:]]
        if nm == "Neg":
            return -xs[0]
        if nm.endswith("mul_add"):
            return xs[0] * xs[1] + xs[2]
        if nm.endswith("::sqrt"):
            return math.sqrt(xs[0]) if xs[0] >= 0 else math.nan
        if nm.endswith("::abs"):
            return abs(xs[0])
        if nm.endswith("::signum"):
            return math.copysign(1.0, xs[0])
        if nm.endswith("::copysign"):
            return math.copysign(xs[0], xs[1])
        if nm.endswith("::min"):
            return min(xs)
        if nm.endswith("::hypot"):
            return math.hypot(*xs)
        if nm.endswith("::powi"):
            return xs[0] ** int(xs[1])
        if nm.endswith("::max"):
            return max(xs)
        if nm.endswith("::is_normal"):
            return abs(xs[0]) > 1.2e-38
        if nm.endswith("::is_finite"):
            return math.isfinite(xs[0])
        if nm.endswith("::is_nan"):
            return xs[0] != xs[0]
        if nm.endswith(("::is_sign_negative", "::is_sign_positive")):
            return (math.copysign(1.0, xs[0]) < 0) == nm.endswith("negative")
        if nm.endswith(("::floor", "::ceil", "::trunc")) and math.isfinite(xs[0]):
            return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[nm.rsplit("::", 1)[-1]](xs[0]))
        if nm.endswith("::recip"):
            return 1.0 / xs[0] if xs[0] else math.copysign(math.inf, xs[0])
        if nm.endswith("::clamp") and xs[1] <= xs[2]:
            return min(max(xs[0], xs[1]), xs[2])
    if o == "fcast" and a[0] == "FloatToFloat":
        return fev(a[1], vals)
    if o == "fun" and len(a) == 2 and short(a[0]) in ("from", "into"):
        return fev(a[1], vals)
    if o == "fcmp":
        x, y = fev(a[1], vals), fev(a[2], vals)
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[a[0]]
    if o == "not":
        return not fev(a[0], vals)
    if o == "eq":
        return fev(a[0], vals) == a[1]
    if o == "sw":
        s = int(fev(a[0], vals))
        for k, v in a[1]:
            if k == s:
                return fev(v, vals)
        return fev(a[2], vals)
    raise Odd(show(n)[:60])


def pick(n, vals):
    """the arm of a value chosen at a point"""
    while n.op == "sw":
        s = int(fev(n.a[0], vals))
        n = next((v for k, v in n.a[1] if k == s), n.a[2])
    return n


def comps(v, ty):
    return [FLD(v, None, i, f["ty"]) for i, f in enumerate(tinfo(ty)["variants"][0]["fields"])]


def peval(p, atoms):
    t = 0.0
    for m, c in p.items():
        x = float(c)
        for a, k in m:
            if a in ROOT:
                x *= math.sqrt(max(0.0, peval(ROOT[a], atoms))) ** k
            else:
                x *= atoms[a] ** k
        t += x
    return t


def pointwise(g, e):
    """a point at which node g clearly differs from the quotient e"""
    ins = sorted((x for x in reach(g) if x.op in ("fld", "in", "elem") and tinfo(x.ty).get("k") == "float"), key=lambda x: x.id if hasattr(x, "id") else str(x))
    def atoms_of(p):
        for m in p:
            for a, _ in m:
                if a in ROOT:
                    yield from atoms_of(ROOT[a])
                else:
                    yield a
    names = {(x.id if hasattr(x, "id") else x): x for x in ins}
    extra = [a for a in set(atoms_of(e.n)) | set(atoms_of(e.d)) if a not in names]
    rnd = __import__("random").Random(7)
    wide = len(e.n) == 1 and len(e.d) == 1      # one product: no sum that rounding could spoil
    for k in range(400 if wide else 200):
        if k < 200:
            vals = {x: rnd.choice([-1, 1]) * rnd.choice([0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 7.0, 10.0]) for x in ins}
        else:
            vals = {x: f32(rnd.choice([-1, 1]) * 10.0 ** rnd.uniform(-33, 33)) for x in ins}
        atoms = {a: vals[x] for a, x in names.items()}
        for a in extra:
            atoms[a] = rnd.choice([-2.0, -1.0, 1.0, 3.0])
        try:
            got = fev(pick(g, vals), vals)
            d = peval(e.d, atoms)
            if abs(d) < 1e-6 and k < 200 or d == 0:
                continue
            exp = peval(e.n, atoms) / d
            if k >= 200 and not 1e-30 <= abs(exp) <= 1e30:
                continue
        except (Odd, KeyError, OverflowError, ZeroDivisionError, ValueError):
            return None
        if got != got or abs(got - exp) > 1e-3 * ((1 if k < 200 else 0) + abs(exp)):
            return "with " + ", ".join(f"{show(x)}={v}" for x, v in list(vals.items())[:6]) + f" it is {got:.6g}, defined as {exp:.6g}"
    return None


POINTS = [(0.0, 0.0, 0.0)] + [tuple(s if i == j else 0.0 for j in range(3)) for i in range(3) for s in (1.0, -1.0, 1e-10, -2.5, 1e10)] + \
    [(3.0, 4.0, 12.0), (-1e-9, 2e-9, 1e-9), (1e8, -1e8, 5e7), (0.5, -0.25, 0.125), (1.0, 1.0, 1.0), (-1.0, 1.0, 0.0)]


# components whose squares do not fit single precision, though the result does
FAR = [(1e-30, 0.0, 0.0), (0.0, -1e-30, 0.0), (0.0, 0.0, 2e-25), (1e-42, 1e-42, 0.0), (3e-23, -4e-23, 0.0), (1e30, 0.0, 0.0), (0.0, 1e30, -1e30), (0.0, 0.0, -2e38), (1e25, 2e25, 2e25)]


def far(R, f, key, value, cs, exp):
    """a value at the ends of the range of single precision, rounded as its types say"""
    for pt in FAR:
        pt = tuple(f32(x) for x in pt)
        m = math.sqrt(sum(x * x for x in pt))
        try:
            got = value(dict(zip(cs, pt)))
        except (Odd, KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex:
            R.undecided(f"{key}/range", str(ex), "operation")
            return
        e = exp(pt, m)
        if isinstance(got, str) or got != got or abs(got - e) > 1e-4 * abs(e) + 1e-44:
            R.viol(f"{key}/range", where(f), f"{key} of {pt} is {got}, mathematically {e:.6g}", key, "operation")
            return
    R.ok(f"the definition's value at the ends of the range of single precision ({len(FAR)} points)", key, "operation")


def c23(cx, R):
    R.rule("the value graphs of the vector operations, read as quotients of polynomials over the reals (fused multiply-add expanded, square roots as algebraic atoms with s*s = radicand), equal the "
           "textbook expressions; normalize yields nothing exactly at the zero vector (decided on a grid of points of every sign pattern and magnitude 1e-10..1e10, where single precision does not underflow)")
    fs = [f for f in cx.C.fns if is_path(f["locals"][0], "Vector3Float") or (f["argc"] and is_path(f["locals"][1], "Vector3Float"))]
    seen = set()
    for f in fs:
        if f.get("derived") or "{closure" in f["key"]:
            continue
        nm = f["name"]
        tr = short(f.get("impl_trait") or "")
        vty = next((t for t in [f["locals"][0]] + [refof(x) for x in f["locals"][1:1 + f["argc"]]] if is_path(t, "Vector3Float")), None)
        if nm not in ("zero", "one", "unit_x", "unit_y", "unit_z", "dot", "cross", "magnitude", "normalize", "add", "sub", "mul", "div", "neg", "add_assign", "sub_assign") or vty is None:
            continue
        vty = refof(vty)
        r = cx.run(f)
        if r.ret is None:
            R.undecided(nm, r.err, "operation")
            continue
        key = f"Vector3Float::{nm}"
        seen.add(nm)

        def compare(got, exp, what):
            for g, e, c in zip(got, exp, "xyz" if len(got) == 3 else ("",)):
                sub = f"{what}.{c}" if c else what
                try:
                    x = rat(g)
                except Odd as ex:
                    # not a polynomial: compared at points
                    hit = pointwise(g, e)
                    if hit:
                        R.viol(sub, where(f), f"{what}: component {c or 'value'} is {show(g)[:120]}, not the defined expression: {hit}", key, "operation")
                    else:
                        R.undecided(sub, str(ex), "operation")
                    continue
                if rsame(x, e):
                    R.ok(f"{c or 'value'} is the textbook expression", key, "operation")
                else:
                    R.viol(sub, where(f), f"{what}: component {c or 'value'} is {show(g)[:200]}, not the defined expression", key, "operation")

        K1 = {"zero": (0, 0, 0), "one": (1, 1, 1), "unit_x": (1, 0, 0), "unit_y": (0, 1, 0), "unit_z": (0, 0, 1)}
        if nm in K1 and f["argc"] == 0:
            compare(comps(r.ret, vty), [Rat({(): Fraction(c)} if c else {}) for c in K1[nm]], key)
            continue
        if not f["argc"]:
            continue
        a = r.selfv if r.selfv is not None else r.args[0]
        if a.op == "ref":
            R.undecided(key, "receiver", "operation")
            continue
        A = [rat(x) for x in comps(a, vty)]
        if nm in ("dot", "cross", "add", "sub"):
            b = r.args[1]
            if b.op == "ref":
                b = r.I.load(r.st, b)
            B = [rat(x) for x in comps(b, vty)]
        elif nm in ("mul", "div"):
            if tinfo(f["locals"][2]).get("k") != "float":
                continue
            S = rat(r.args[1])
        mag = lambda: root(sumof([times(x, x) for x in A]))
        if nm == "dot":
            compare([r.ret], [sumof([times(x, y) for x, y in zip(A, B)])], key)
        elif nm == "cross":
            compare(comps(r.ret, vty), [minus(times(A[1], B[2]), times(A[2], B[1])), minus(times(A[2], B[0]), times(A[0], B[2])), minus(times(A[0], B[1]), times(A[1], B[0]))], key)
        elif nm == "add":
            compare(comps(r.ret, vty), [sumof([x, y]) for x, y in zip(A, B)], key)
        elif nm == "sub":
            compare(comps(r.ret, vty), [minus(x, y) for x, y in zip(A, B)], key)
        elif nm == "mul":
            compare(comps(r.ret, vty), [times(x, S) for x in A], key)
        elif nm == "div":
            compare(comps(r.ret, vty), [Rat(pmul(x.n, S.d), pmul(x.d, S.n)) for x in A], key)
        elif nm == "magnitude":
            compare([r.ret], [mag()], key)
            far(R, f, key, lambda vals: fev(pick(r.ret, vals), vals), comps(a, vty), lambda pt, m: m)
        elif nm == "normalize":
            m = mag()
            somes = [v for cs, v in result_leaves(r.ret) if variant_name(v) == "Some"]
            if not somes:
                R.viol(f"{key}/never", where(f), f"{key} never yields a vector", key, "operation")
            for v in somes:
                compare(comps(v.a[1][0], vty), [Rat(pmul(x.n, m.d), pmul(x.d, m.n)) for x in A], key)
            cs = comps(a, vty)
            bad = und = None
            for pt in POINTS:
                try:
                    v = variant_name(pick(r.ret, dict(zip(cs, pt))))
                except (Odd, KeyError, OverflowError) as ex:
                    und = str(ex)
                    break
                if (v == "None") != (pt == (0.0, 0.0, 0.0)):
                    bad = (pt, v)
                    break
            if bad:
                R.viol(f"{key}/zero", where(f), f"{key} of {bad[0]} is {bad[1]}: nothing is returned exactly for the zero vector", key, "operation")
            elif und:
                R.undecided(f"{key}/zero", und, "operation")
            else:
                R.ok(f"nothing exactly at the zero vector ({len(POINTS)} points)", key, "operation")
            for j, c in enumerate("xyz"):
                def comp(vals, j=j):
                    v = pick(r.ret, vals)
                    if variant_name(v) != "Some":
                        return "nothing"
                    w = comps(v.a[1][0], vty)[j]
                    return fev(pick(w, vals), vals)
                far(R, f, f"{key}.{c}", comp, cs, lambda pt, m, j=j: pt[j] / m)
    if "dot" not in seen or "cross" not in seen:
        raise LookupError("Vector3Float operations not found")


# ------------------------------------------------------------------------------- C24
def default_fn(cx, ty):
    if not hasattr(cx, "_dfn"):
        cx._dfn = {}
        for f in cx.C.fns:
            if f["name"] == "default" and f["argc"] == 0 and (f.get("impl_trait") or "").endswith("default::Default"):
                cx._dfn.setdefault(f["locals"][0], f)
    return cx._dfn.get(ty)


def counts_of(cx, ty):
    """(count field, list field) pairs of a type: from the frozen layout of the repository's counted records"""
    i = tinfo(ty)
    vs = i.get("variants") or []
    if i.get("akind") == "enum" or not vs:
        return []
    fs = {f["name"]: (n, f["ty"]) for n, f in enumerate(vs[0]["fields"])}
    return fs


def c24(cx, R):
    from rules_size import header_index, field, own_code
    R.rule("the body of new() equals the body of default() field by field; every list of a fresh PDU, at any depth, is empty, every optional part absent and every number-of, count and length field of the body "
           "zero; the fresh header has protocol version IEEE 1278.1-2012, exercise 1, clear status, zero padding, the frozen type and family of the PDU's name and the length calculate_length gives for the fresh value")
    import tables
    codes = tables.load("pdu_codes")
    for nm, p in sorted(cx.pdus.items()):
        fn, fd = p.get("new"), p.get("default") or default_fn(cx, p["ty"])
        hi = header_index(p["ty"])
        if fn is None or fn["argc"] or hi is None:
            R.undecided(f"{nm}.new", "constructor not found", "pdu")
            continue
        rn = cx.run(fn)
        if rn.ret is None:
            R.undecided(f"{nm}.new", rn.err, "pdu")
            continue
        rd = cx.run(fd) if fd is not None else None
        for n, f in enumerate(tinfo(p["ty"])["variants"][0]["fields"]):
            a = FLD(rn.ret, None, n, f["ty"])
            if n == hi[0]:
                continue
            # the same through default()
            if rd is not None and rd.ret is not None:
                b = FLD(rd.ret, None, n, f["ty"])
                cmp(R, f"{nm}.{f['name']}/default", where(fn), a, b, f["ty"], f"{nm}::new() and {nm}::default() differ in {f['name']}", nm)
            # the type's own default
            d = default_fn(cx, f["ty"])
            if d is not None:
                rr = cx.run(d)
                if rr.ret is not None:
                    cmp(R, f"{nm}.{f['name']}/own-default", where(fn), a, rr.ret, f["ty"], f"{nm}::new() gives {f['name']} something other than its type's default", nm)
            else:
                k = tinfo(f["ty"]).get("k")
                if k == "int":
                    if a.op == "k" and a.a[0] != 0:
                        R.viol(f"{nm}.{f['name']}/nonzero", where(fn), f"{nm}::new() gives {f['name']} the value {a.a[0]}", nm, "pdu")
                    elif a.op == "k":
                        R.ok(f"{f['name']} is 0", nm, "pdu")
        empty_parts(R, nm, where(fn), rn.ret, p["ty"], hi[0])
        code = codes.get(nm) or own_code(cx, p)
        if code is None:
            R.undecided(f"{nm}.header", "own code not found", "header")
        else:
            from rules_sem import fresh_header
            fresh_header(cx, R, nm, p, rn.ret, hi, code)
        h = FLD(rn.ret, None, *hi)
        for fl, want in (("protocol_version", "IEEE1278_1_2012"), ("exercise_id", 1), ("padding", 0)):
            x = field(h, fl)
            if x is None:
                continue
            if isinstance(want, str):
                vs = tinfo(x.ty).get("variants") or []
                w = next((v["discr"] for v in vs if v["name"] == want), None)
                d = DISCR(x)
            else:
                w, d = want, x
            if w is None or d.op != "k":
                R.undecided(f"{nm}.header.{fl}", show(d)[:80], "header")
            elif d.a[0] != w:
                R.viol(f"{nm}.header.{fl}", where(fn), f"{nm}::new() gives the header {fl} {show(x)[:60]} instead of {want}", nm, "header")
            else:
                R.ok(f"{fl} {want}", nm, "header")
        x = field(h, "status_record") or field(h, "pdu_status_record") or field(h, "pdu_status")
        if x is not None:
            from rules_sem import octet
            o = octet(x)
            if o is not None and o.op == "k":
                if o.a[0]:
                    R.viol(f"{nm}.header.status", where(fn), f"{nm}::new() has status octet {o.a[0]:#04x} instead of 0", nm, "header")
                else:
                    R.ok("status clear", nm, "header")


COUNTS = ("number_of_", "num_")


def empty_parts(R, nm, w, a, ty, skip=None, path="", depth=0):
    """every list of a fresh value is empty, every optional part absent, every field that counts something zero, at any depth"""
    i = tinfo(ty)
    k = i.get("k")
    if depth > 12 or k not in ("adt", "tuple", "array"):
        return
    if k == "array":
        n = LEN(a)
        if isk(n) and n.a[0] <= 64:
            for j in range(n.a[0]):
                empty_parts(R, nm, w, ELEM(a, K(j)), elem_ty(mk("opaque", ("t",), ty)), None, f"{path}[{j}]", depth + 1)
        return
    if k == "tuple":
        for j, t in enumerate(i["elems"]):
            empty_parts(R, nm, w, FLD(a, None, j, t), t, None, f"{path}.{j}", depth + 1)
        return
    if elem_ty(mk("opaque", ("t",), ty)) is not None:
        n = LEN(a)
        if n is K(0):
            R.ok(f"{path[1:]} is empty", nm, "list")
        elif isk(n):
            R.viol(f"{nm}{path}/nonempty", w, f"{nm}::new() gives {path[1:]} {n.a[0]} elements", nm, "list")
        else:
            R.undecided(f"{nm}{path}/nonempty", show(n)[:100], "list")
        return
    vs = i.get("variants") or []
    v = 0
    if len(vs) != 1:
        d = DISCR(a)
        if d.op != "k":
            if any(x["fields"] for x in vs):
                R.undecided(f"{nm}{path}", show(d)[:100], "list")
            return
        v = next((n for n, x in enumerate(vs) if x["discr"] == d.a[0]), None)
        if v is None:
            return
        if (i.get("name") or "").endswith("option::Option"):
            if vs[v]["fields"]:
                R.viol(f"{nm}{path}/present", w, f"{nm}::new() has the optional part {path[1:]}", nm, "list")
            else:
                R.ok(f"{path[1:]} is absent", nm, "list")
            return
    for n, f in enumerate(vs[v]["fields"]):
        if n == skip:
            continue
        x = FLD(a, v if len(vs) > 1 else None, n, f["ty"])
        nme = f["name"] or ""
        if tinfo(f["ty"]).get("k") == "int":
            if nme.startswith(COUNTS) or nme.endswith(("_count", "_length")):
                if x is K(0):
                    R.ok(f"{path}.{nme} is 0"[1:], nm, "count")
                elif x.op == "k":
                    R.viol(f"{nm}{path}.{nme}/count", w, f"{nm}::new() gives {(path + '.' + nme)[1:]} the value {x.a[0]}; it describes nothing", nm, "count")
                else:
                    d = differ(x, K(0))
                    if d:
                        R.viol(f"{nm}{path}.{nme}/count", w, f"{nm}::new() gives {(path + '.' + nme)[1:]} the value {show(x)[:60]} ({d})", nm, "count")
                    else:
                        R.undecided(f"{nm}{path}.{nme}/count", show(x)[:100], "count")
        else:
            empty_parts(R, nm, w, x, f["ty"], None, f"{path}.{nme}", depth + 1)


def cmp(R, key, w, a, b, ty, msg, obj, kind="pdu"):
    if surely_equal(a, b):
        R.ok(key.split("/")[0].split(".", 1)[-1], obj, kind)
        return
    und = None
    for path, x, y, cs in deep(a, b, ty):
        if surely_equal(x, y) or decided_equal(x, y, cs):
            continue
        if has_op(x, ("clock",)) and has_op(y, ("clock",)):
            continue
        d = differ(x, y, cs)
        if d:
            R.viol(key, w, f"{msg}: {path.lstrip('.') or 'value'} {show(x)[:60]} against {show(y)[:60]}", obj, kind)
            return
        und = f"{path} {show(x)[:60]} against {show(y)[:60]}"
    if und:
        R.undecided(key, und, kind)
    else:
        R.ok(key.split("/")[0].split(".", 1)[-1], obj, kind)


# ------------------------------------------------------------------------------- C25
NONINJ = ("trim", "to_lowercase", "to_uppercase", "to_ascii", "eq_ignore_ascii_case", "abs", "floor", "round", "trunc", "ceil")


def reflexive_out(q):
    """comparisons of a node with itself count as true (NaN apart)"""
    return subst(q, {n: TRUE for n in reach(q) if n.op == "fcmp" and n.a[0] == "Eq" and n.a[1] is n.a[2] or n.op == "fun" and n.a[0] == "eq" and n.a[1] is n.a[2]})


def eq_of(q, p, o, ty):
    """is q, in which everything but p and o is the same on both sides, true exactly when p and o (of type ty) are equal?
    -> (True, None), (False, reason) or (None, None)"""
    q = reflexive_out(q)
    if q.op == "top" or has_op(q, ("top",)):
        return None, None
    if q.op == "fun" and q.a[0] == "eq" and {q.a[1], q.a[2]} == {p, o}:
        return True, None
    i = tinfo(ty)
    k = i.get("k")
    if not (set(reach(q)) & {p, o}) and not any(n in reach(q) for n in (DISCR(p), DISCR(o))):
        w = witness(lambda env: ev._num(q, env) == 1, [q], guess=True)
        if q is TRUE or (w and w[0]):
            return False, None
        return None, None
    if k in ("int", "bool", "char"):
        if surely_equal(q, EQ(p, o)):
            return True, None
        b = i.get("bits") or 8
        lo, hi = vg.trange(ty)
        near = [(x, x ^ (1 << j)) for x in (lo, 0, hi, hi // 3) for j in range(b - 1)] + [(0, hi), (1, -1)]
        near = [(x, y) for x, y in near if lo <= x <= hi and lo <= y <= hi and x != y]
    elif k == "float":
        if q.op == "fcmp" and q.a[0] == "Eq" and {q.a[1], q.a[2]} == {p, o}:
            return True, None
        near = []
        for x in (0.0, 1.0, -1.0, 1e-9, 1e6, 1e30, 3.5, -250.25):
            near += [(x, -x), (x, x + 1e-9), (x, x * (1 + 1e-6)), (x, x + 1e-3), (x, x + 0.5), (x, math.nextafter(x, 2))]
        near = [(x, y) for x, y in near if x != y]
    elif k == "adt" and i.get("akind") == "enum" and all(not v["fields"] for v in i["variants"]):
        if surely_equal(q, EQ(DISCR(p), DISCR(o))):
            return True, None
        near = None
    else:
        near = None
        if k == "tuple" or k == "adt" and i.get("akind") != "enum" and elem_ty(p) is None and len(i.get("variants") or ()) == 1 and i.get("local"):
            fs = [e for e in i["elems"]] if k == "tuple" else [x["ty"] for x in i["variants"][0]["fields"]]
            und = False
            pa = AGG(ty, None, [FLD(p, None, n, t) for n, t in enumerate(fs)])
            for n, t in enumerate(fs):
                m = AGG(ty, None, [FLD(o if j == n else p, None, j, u) for j, u in enumerate(fs)])
                res, why = eq_of(subst(subst(q, {o: m}), {p: pa}), FLD(p, None, n, t), FLD(o, None, n, t), t)
                if res is False:
                    nm = n if k == "tuple" else i["variants"][0]["fields"][n]["name"]
                    return False, why or f"{nm} is ignored"
                und = und or res is None
            return (None, None) if und else (True, None)
    if near is not None:
        for x, y in near:
            if k == "float":
                w = i["bits"] // 8
                env = Env(random.Random(1), [0], {nd: ("fb", w, int.from_bytes(struct.pack(">f" if w == 4 else ">d", z), "big")) for nd, z in ((p, x), (o, y))})
                if ev._cmp(env.fixed[p], env.fixed[o]):
                    continue
            else:
                env = Env(random.Random(1), [0], {p: x, o: y})
            try:
                if ev._num(q, env) == 1:
                    return False, f"{x} and {y}"
            except (Undef, Dead, RecursionError, TypeError, KeyError):
                continue
    for path, a, b, cs in deep(p, o, ty):
        w = witness(lambda env: ev._neq(ev.ev(a, env), ev.ev(b, env)) and ev._num(q, env) == 1, [a, b, q], cs, 300, guess=True)
        if w and w[0]:
            return False, f"{path.lstrip('.') or 'value'} ({explain(a, b, w[0])})"
    if k == "adt" and elem_ty(p) is not None or k in ("array", "slice", "str"):
        t = subst(q, {LEN(p): mk("opaque", ("lp",), LEN(p).ty), LEN(o): mk("opaque", ("lo",), LEN(o).ty)})
        if not (set(reach(t)) & {p, o}):
            return False, "only the lengths are compared"
        if any(n.op == "fun" and any(z in str(n.a[0]) for z in NONINJ) for n in reach(q)):
            return False, f"compared through {next(str(n.a[0]) for n in reach(q) if n.op == 'fun' and any(z in str(n.a[0]) for z in NONINJ))}"
    return None, None


def c25(cx, R):
    R.rule("every PartialEq and Clone of the crate's types is generated by the compiler from the type's fields, or its value graph shows that equality is refused whenever a field differs and granted when "
           "none does, and that the clone equals the original in every field")
    for i in cx.F["impls"]:
        tr = i.get("trait") or ""
        if tr.startswith("std::cmp::PartialEq") or tr == "std::clone::Clone":
            if i.get("derived"):
                R.ok(f"compiler-generated {short(tr)}", i["self_name"], "impl")
    for f in cx.C.fns:
        if f.get("derived") or "::_::" in f["key"] or not f["argc"]:
            continue
        st = refof(f["locals"][1])
        i = tinfo(st)
        if not (i.get("local") and i.get("k") == "adt"):
            continue
        tr = f.get("impl_trait") or ""
        if f["name"] == "clone" and tr.endswith("Clone"):
            r = cx.run(f)
            if r.ret is None or r.selfv is None:
                R.undecided(f["key"], r.err or "receiver", "impl")
                continue
            bad = und = None
            for path, x, y, cs in deep(r.ret, r.selfv, st):
                if surely_equal(x, y) or decided_equal(x, y, cs):
                    continue
                d = differ(x, y, cs)
                if d:
                    bad = f"{path.lstrip('.')} becomes {show(x)[:80]} ({d})"
                    break
                und = f"{path} {show(x)[:80]}"
            if bad:
                R.viol(f["key"], where(f), f"{f['key']} does not copy its value: {bad}", f["key"], "impl")
            elif und:
                R.undecided(f["key"], und, "impl")
            else:
                R.ok("equals the original in every field", f["key"], "impl")
        elif f["name"] in ("eq", "ne") and "PartialEq" in tr and f["argc"] == 2 and refof(f["locals"][2]) == st:
            r = cx.run(f)
            if r.ret is None or r.selfv is None:
                R.undecided(f["key"], r.err or "receiver", "impl")
                continue
            ret = r.ret if f["name"] == "eq" else NOT(r.ret)
            other = r.args[1]
            if other.op == "ref":
                other = r.I.load(r.st, other)
            bad = False
            if i.get("akind") == "enum":
                eqs = witness(lambda env: ev.ev(DISCR(r.selfv), env) != ev.ev(DISCR(other), env) and ev._num(ret, env) == 1, [ret, DISCR(r.selfv), DISCR(other)], guess=True)
                if eqs and eqs[0]:
                    R.viol(f["key"], where(f), f"{f['key']} calls different variants equal ({explain(DISCR(r.selfv), DISCR(other), eqs[0])})", f["key"], "impl")
                    bad = True
            und = None
            for vi, va in enumerate(i["variants"]):
                fs = va["fields"]
                vn = vi if i.get("akind") == "enum" else None
                name = lambda x: f"{va['name']}.{x['name']}" if vn is not None else x["name"]
                mine = AGG(st, vn, [FLD(r.selfv, vn, k, y["ty"]) for k, y in enumerate(fs)])
                for n, x in enumerate(fs):
                    p, o = FLD(r.selfv, vn, n, x["ty"]), FLD(other, vn, n, x["ty"])
                    mixed = AGG(st, vn, [o if k == n else FLD(r.selfv, vn, k, y["ty"]) for k, y in enumerate(fs)])
                    q = subst(subst(ret, {other: mixed}), {r.selfv: mine})
                    res, why = eq_of(q, p, o, x["ty"])
                    if res is False:
                        bad = True
                        R.viol(f"{f['key']}/{name(x)}", where(f), f"{f['key']} calls values equal that differ in {name(x)}: {why}" if why else
                               f"{f['key']} ignores the field {name(x)}: values that differ in it are equal", f["key"], "impl")
                    elif res is None:
                        und = f"{name(x)}: {show(q)[:120]}"
            same = subst(ret, {other: r.selfv})
            w = witness(lambda env: ev._num(same, env) == 0, [same], guess=True) if not has_op(same, ("fcmp", "top")) else None
            if w and w[0]:
                R.viol(f"{f['key']}/reflexive", where(f), f"{f['key']} calls a value different from itself", f["key"], "impl")
                bad = True
            if und and not bad:
                R.undecided(f["key"], und, "impl")
            elif not bad:
                R.ok("equal exactly when no field differs", f["key"], "impl")
