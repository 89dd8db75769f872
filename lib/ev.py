"""Deciding (in)equality of two normal forms.

Equal normal forms are equal.  Forms that differ are decided by complete enumeration when they depend
on few leaves with small finite domains (an enum discriminant, a byte), and otherwise are only
reported as different when a valuation of their leaves is found under which they have different
values; a difference without such a witness stays undecided (and silent).
"""
import math
import random
import struct
from vg import *
import vg


class Undef(Exception):
    pass


class Dead(Exception):
    pass


_swcache = {}
SEED = 1
EFFORT = 1


class Env:
    def __init__(self, rnd, pool, fixed=None, big=False):
        self.rnd, self.pool, self.fixed = rnd, pool, fixed or {}
        self.leaf = {}
        self.ix = {}
        self.big = big
        self.memo = {}
        self.steps = 0
        self.opq = set()        # uninterpreted functions met

    def pick(self, key, lo, hi, kind):
        v = self.leaf.get(key)
        if v is not None:
            return v
        r = self.rnd
        if lo == -INF:
            lo = -(1 << 63)
        if hi == INF:
            hi = 1 << 64
        c = r.random()
        if kind == "len":
            p = [x for x in self.pool if lo <= x <= hi and x <= 1 << 33]
            if c < 0.55 or not p:
                v = r.choice([0, 1, 1, 2, 3, 4, 7])
            else:
                v = r.choice(p)
        elif kind == "rem":
            p = [x for x in self.pool if lo <= x <= hi]
            v = r.choice(p) if p and c < 0.7 else r.choice([0, 1, 5, 12, 100, 1000, 9000, 1 << 20])
        else:
            p = [x for x in self.pool if lo <= x <= hi]
            if p and c < 0.5:
                v = r.choice(p)
            elif c < 0.7:
                v = r.choice([lo, hi, max(lo, hi - 1), min(hi, lo + 1)])
            elif c < 0.85:
                v = r.randint(lo, min(hi, lo + 300))
            else:
                v = r.randint(lo, hi)
        v = max(lo, min(hi, v))
        self.leaf[key] = v
        return v


def _key(v):
    if isinstance(v, tuple) and v and v[0] == "o":
        return v[1]
    return v


def ev(n, env):
    f = env.fixed.get(n)
    if f is not None:
        return f
    k = (n, tuple(sorted(env.ix.items()))) if env.ix else n
    r = env.memo.get(k)
    if r is None:
        env.steps += 1
        if env.steps > 200000:
            raise Undef()
        r = env.memo[k] = _ev(n, env)
    return r


def _num(n, env):
    v = ev(n, env)
    if not isinstance(v, int):
        raise Undef()
    return v


def _scalar(n):
    t = tinfo(n.ty)
    return t.get("k") in ("int", "bool", "char")


def _leafval(n, key, env):
    if _scalar(n):
        lo, hi = rng(n)
        return env.pick(key, lo, hi, "int")
    t = tinfo(n.ty)
    if t.get("k") == "float" and t.get("bits") in (32, 64):
        return ("fb", t["bits"] // 8, _pickf(key, t["bits"] // 8, env))
    return ("o", key, n.ty)


def _ev(n, env):
    o, a = n.op, n.a
    if o == "k":
        return a[0]
    if o in ("top", "unk"):
        raise Undef()
    if o == "bot":
        raise Dead()
    if o == "in":
        return _leafval(n, ("in", a[0]), env)
    if o == "fld":
        b = ev(a[0], env)
        if isinstance(b, tuple) and b[0] == "agg":
            if a[1] is not None and b[2] is not None and a[1] != b[2] and tinfo(b[1]).get("akind") == "enum":
                raise Dead()
            return b[3][a[2]]
        if isinstance(b, tuple) and b[0] == "o":
            return _leafval(n, ("fld", b[1], a[1], a[2]), env)
        raise Undef()
    if o == "elem":
        b, i = ev(a[0], env), _num(a[1], env)
        return _elem(b, i, n, env)
    if o == "discr":
        b = ev(a[0], env)
        if isinstance(b, tuple) and b[0] == "agg":
            vs = tinfo(b[1]).get("variants")
            return vs[b[2]]["discr"] if vs and tinfo(b[1]).get("akind") == "enum" else (b[2] or 0)
        if isinstance(b, tuple) and b[0] == "o":
            vs = tinfo(a[0].ty).get("variants")
            key = ("discr", b[1])
            if key not in env.leaf:
                if vs:
                    ds = [v["discr"] for v in vs]
                    p = [x for x in ds if x in env.pool]
                    env.leaf[key] = env.rnd.choice(p if p and env.rnd.random() < .5 else ds)
                else:
                    return env.pick(key, 0, 1 << 32, "int")
            return env.leaf[key]
        raise Undef()
    if o == "len":
        b = ev(a[0], env)
        return _len(b, n, env)
    if o == "get":
        lo, hi = rng(n)
        return env.pick(("get", a[0]) + tuple(sorted(env.ix.items())), lo, hi, "int")
    if o == "getseq":
        return ("o", ("getseq", a[0], _num(a[1], env)) + tuple(sorted(env.ix.items())), n.ty)
    if o in ("rem", "wlen", "cap"):
        lo, hi = rng(n)
        return env.pick((o,) + a, lo, hi, "rem")
    if o == "ix":
        if a[0] in env.ix:
            return env.ix[a[0]]
        b = vg.ix_bounds.get(a[0])
        hi = _num(b, env) if b is not None else 5
        if hi <= 0:
            raise Dead()
        return env.pick(("ix", a[0]), 0, min(hi - 1, 1 << 33), "len")
    if o == "lin":
        return a[0] + sum(k * _num(t, env) for t, k in a[1])
    if o == "mul":
        return _num(a[0], env) * _num(a[1], env)
    if o == "sw":
        s = _num(a[0], env)
        m = _swcache.get(n)
        if m is None:
            m = _swcache[n] = dict(a[1])
        return ev(m.get(s, a[2]), env)
    if o == "ge0":
        return 1 if _num(a[0], env) >= 0 else 0
    if o == "eq":
        return 1 if _num(a[0], env) == a[1] else 0
    if o == "not":
        return 0 if _num(a[0], env) else 1
    if o == "min":
        return min(_num(a[0], env), _num(a[1], env))
    if o == "max":
        return max(_num(a[0], env), _num(a[1], env))
    if o == "trunc":
        x = _num(a[2], env) & ((1 << a[0]) - 1)
        if a[1] and x >> (a[0] - 1):
            x -= 1 << a[0]
        return x
    if o == "bin":
        op, x, y = a[0], _num(a[1], env), _num(a[2], env)
        try:
            if op == "And":
                r = x & y
            elif op == "Or":
                r = x | y
            elif op == "Xor":
                r = x ^ y
            elif op == "Shl":
                r = x << y if 0 <= y < 128 else None
            elif op == "Shr":
                r = x >> y if 0 <= y < 128 else None
            elif op == "Div":
                r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            elif op == "Rem":
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            else:
                r = None
        except ZeroDivisionError:
            raise Dead()
        if r is None:
            raise Undef()
        return ev(to_type(K(r), n.ty), env) if n.ty is not None else r
    if o == "sum":
        c = _num(a[1], env)
        if c > 64:
            if c > 1 << 34:
                raise Undef()
            # large counts: all iterations alike
            raise Undef()
        t = 0
        for j in range(c):
            env.ix[a[0]] = j
            t += _num(a[2], env)
        env.ix.pop(a[0], None)
        return t
    if o == "agg":
        return ("agg", n.ty, a[0], tuple(ev(x, env) for x in a[1]))
    if o == "seq":
        out = []
        for p in a:
            v = ev(p[1], env)
            if p[0] == "1":
                out.append(v)
            else:
                ln = _len(v, p[1], env)
                if ln > 64:
                    raise Undef()
                for j in range(ln):
                    out.append(ev(ELEM(p[1], K(j)), env))
        return ("list", tuple(out))
    if o == "map":
        c = _num(a[1], env)
        if c > 64:
            raise Undef()
        out = []
        for j in range(c):
            env.ix[a[0]] = j
            out.append(ev(a[2], env))
        env.ix.pop(a[0], None)
        return ("list", tuple(out))
    if o == "repeat":
        c = _num(a[1], env)
        if c > 64:
            raise Undef()
        return ("list", tuple([ev(a[0], env)] * max(c, 0)))
    if o == "slice":
        c = _num(a[2], env)
        if c > 64 or c < 0:
            raise Undef()
        off = _num(a[1], env)
        return ("list", tuple(ev(ELEM(a[0], K(off + j)), env) for j in range(c)))
    if o == "store":
        b = ev(a[0], env)
        i = _num(a[1], env)
        if isinstance(b, tuple) and b[0] == "list" or (isinstance(b, tuple) and b[0] == "agg"):
            xs = list(b[1] if b[0] == "list" else b[3])
            if i < len(xs):
                xs[i] = ev(a[2], env)
            return ("list", tuple(xs))
        return ("o", ("store", _key(b), i, _key(ev(a[2], env))), n.ty)
    if o == "bytes":
        return ("list", tuple(a[0]))
    if o == "byte":
        return (_num(a[0], env) >> (8 * (a[1] - 1 - a[2]))) & 255
    if o == "cat":
        r = 0
        for x in a[0]:
            r = r << 8 | (_num(x, env) & 255)
        return r
    if o == "tobits":
        v = ev(a[0], env)
        if isinstance(v, tuple) and v[0] == "fb":
            return v[2]
        w = tinfo(a[0].ty).get("bits", 64)
        return env.pick(("bits", _key(v)), 0, (1 << w) - 1, "int")
    if o == "frombits":
        return ("fb", a[0], _num(a[1], env))
    if o == "float":
        return ("fb", tinfo(n.ty).get("bits", 64) // 8, a[0])
    if o == "enumof":
        return _num(a[0], env)
    if o == "unit":
        return ("agg", None, None, ())
    if o == "lossy":
        b = ev(a[0], env)
        xs = _bytes_of(b)
        if xs is not None:
            return ("list", tuple(bytes(xs).decode("utf-8", "replace").encode()))
    if o == "deref":
        return ev(a[0], env)
    if o == "fun":
        if a[0].endswith(("Deref::deref", "to_string", "to_owned", "into_owned", "ToString::to_string")) and len(a) == 2:
            v = ev(a[1], env)
            if _bytes_of(v) is not None:
                return v
        if a[0] == "str:utf8":
            xs = _bytes_of(ev(a[1], env))
            if xs is not None:
                try:
                    bytes(xs).decode()
                    return 1
                except UnicodeDecodeError:
                    return 0
        if a[0].startswith("str:trim"):
            v = _strfun(a, env)
            if v is not None:
                return v
    if o == "fcmp":
        x, y = fval(ev(a[1], env), env), fval(ev(a[2], env), env)
        return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[a[0]])
    if o == "phi":
        raise Undef()           # a loop-carried value
    if o == "fbin":
        x, y = ev(a[1], env), ev(a[2], env)
        if _fb(x) and _fb(y) and x[1] == y[1]:
            return _fbin(a[0], x, y, x[1])
    if o == "fcast":
        x = ev(a[1], env)
        if _fb(x) if a[0] != "IntToFloat" else isinstance(x, int):
            return _fcast(a[0], x, n)
    if o == "fun" and (a[0] in ("Neg", "neg") or a[0].startswith(("f32::", "f64::"))) and all(isinstance(x, N) for x in a[1:]):
        xs = [ev(x, env) for x in a[1:]]
        if xs and all(_fb(x) for x in xs):
            v = _ffun(a[0].split("::")[-1], xs, xs[0][1], env)
            if v is not None:
                return v
    # anything else: an uninterpreted function of its evaluated parts
    if o in ("fun", "flat", "lossy"):
        env.opq.add(n)
    key = (o,) + tuple(_evarg(x, env) for x in a)
    lo, hi = rng(n)
    if o == "clock" or (_scalar(n) and lo != -INF):
        return env.pick(key, lo, hi, "int")
    return ("o", key, n.ty)


NICE = (1.0, 2.0, -1.0, 0.5, 3.5, 1e10, 1e-10, -4.25, 7.0, 100.0, 0.0, -0.125)
ODD = (float("nan"), float("inf"), float("-inf"), 3.0e38, -3.0e38, 1e-40, 0.1, 16777217.0, 4294967296.5)


def _pack(x, w):
    try:
        return int.from_bytes(struct.pack(">f" if w == 4 else ">d", x), "big")
    except OverflowError:
        return _pack(math.copysign(math.inf, x), w)


def _unpack(b, w):
    return struct.unpack(">f" if w == 4 else ">d", b.to_bytes(w, "big"))[0]


def _pickf(key, w, env):
    k = ("bits", key)
    if k not in env.leaf:
        c = env.rnd.random()
        x = env.rnd.choice(NICE) if c < .6 else env.rnd.choice(ODD) if c < .75 else env.rnd.uniform(-1e6, 1e6)
        env.leaf[k] = _pack(x, w)
    return env.leaf[k]


def fval(v, env):
    """the number a float value stands for under the valuation"""
    if isinstance(v, int):
        return float(v)
    if isinstance(v, tuple) and v[0] == "fb" and isinstance(v[2], int):
        return _unpack(v[2], v[1])
    raise Undef()


def _fb(v):
    return isinstance(v, tuple) and v and v[0] == "fb" and isinstance(v[2], int)


def _res(x, w):
    if x != x:
        raise Undef()           # which NaN comes out is not fixed
    return ("fb", w, _pack(x, w))


def _fbin(op, x, y, w):
    p, q = _unpack(x[2], w), _unpack(y[2], w)
    if op == "Div":
        if q == 0:
            if p == 0 or p != p:
                raise Undef()
            return ("fb", w, _pack(math.copysign(math.inf, p) * math.copysign(1, q), w))
        return _res(p / q, w)
    if op == "Rem":
        raise Undef()
    try:
        return _res({"Add": p + q, "Sub": p - q, "Mul": p * q}[op], w)
    except KeyError:
        raise Undef()


def _ffun(name, xs, w, env):
    """a function of the standard library on floats, or None"""
    p = [_unpack(x[2], x[1]) for x in xs]
    x = p[0]
    if len(p) == 1:
        if name in ("is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal", "is_subnormal"):
            tiny = 2.0 ** (-126 if xs[0][1] == 4 else -1022)
            return int({"is_nan": x != x, "is_finite": math.isfinite(x), "is_infinite": math.isinf(x), "is_sign_negative": math.copysign(1, x) < 0,
                        "is_sign_positive": math.copysign(1, x) > 0, "is_normal": math.isfinite(x) and abs(x) >= tiny, "is_subnormal": x != 0 and abs(x) < tiny}[name])
        if name in ("abs", "Neg", "neg"):
            top = 1 << (8 * w - 1)
            return ("fb", w, xs[0][2] & (top - 1) if name == "abs" else xs[0][2] ^ top)
        if name in ("floor", "ceil", "trunc", "sqrt", "recip", "signum"):
            if not math.isfinite(x) or name == "sqrt" and x < 0 or name == "recip" and x == 0:
                raise Undef()
            return _res({"floor": lambda: float(math.floor(x)), "ceil": lambda: float(math.ceil(x)), "trunc": lambda: float(math.trunc(x)), "sqrt": lambda: math.sqrt(x),
                         "recip": lambda: 1 / x, "signum": lambda: math.copysign(1.0, x)}[name](), w)
        if name in ("to_degrees", "to_radians", "round", "round_ties_even", "fract", "exp", "ln"):
            return None
    if name in ("min", "max") and len(p) == 2:
        if x != x:
            return xs[1]
        if p[1] != p[1]:
            return xs[0]
        return xs[0] if (x <= p[1]) == (name == "min") else xs[1]
    if name == "clamp" and len(p) == 3:
        if not p[1] <= p[2]:
            raise Dead()
        return xs[1] if x < p[1] else xs[2] if x > p[2] else xs[0]
    if name == "copysign" and len(p) == 2:
        return ("fb", w, _pack(math.copysign(x, p[1]), w))
    return None


def _fcast(kind, v, n):
    t = tinfo(n.ty)
    if kind == "FloatToInt":
        x = _unpack(v[2], v[1])
        lo, hi = vg.trange(n.ty)
        return 0 if x != x else lo if x <= lo else hi if x >= hi else int(x)
    w = t.get("bits", 64) // 8
    if kind == "IntToFloat":
        if w == 4 and abs(v) > 1 << 53:
            raise Undef()
        return ("fb", w, _pack(float(v), w))
    x = _unpack(v[2], v[1])
    return ("fb", w, v[2]) if w == v[1] else _res(x, w)


def _bytes_of(v):
    if isinstance(v, tuple) and v and v[0] in ("list", "agg"):
        xs = v[1] if v[0] == "list" else v[3]
        if all(isinstance(x, int) and 0 <= x < 256 for x in xs):
            return list(xs)
    return None


def _text_of(v, env):
    """the octets of an unknown text under the valuation"""
    if isinstance(v, tuple) and v[0] == "o" and v[1][0] in ("in", "fld", "elem") and (tinfo(v[2]).get("k") == "str" or (tinfo(v[2]).get("name") or "").endswith("string::String")):
        n = env.pick(("len", v[1]), 0, vg.MEM, "len")
        if n <= 64:
            return [env.pick(("elem", v[1], i), 1, 126, "int") for i in range(n)]
    return None


import unicodedata
CHARS = {"control": lambda c: unicodedata.category(c) == "Cc", "whitespace": lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f", "alphabetic": str.isalpha, "numeric": str.isnumeric,
         "alphanumeric": str.isalnum, "uppercase": str.isupper, "lowercase": str.islower}


def _strfun(a, env):
    xs = _bytes_of(ev(a[1], env))
    if xs is None:
        xs = _text_of(ev(a[1], env), env)
    if xs is None:
        return None
    t = bytes(xs).decode("utf-8", "replace")
    name = a[0][4:]
    if len(a) == 2:
        f = {"trim": t.strip, "trim_start": t.lstrip, "trim_end": t.rstrip}.get(name)
        ws = "".join(chr(i) for i in range(128) if CHARS["whitespace"](chr(i)))
        return ("list", tuple(f(ws).encode())) if f and t.isascii() else None
    if isinstance(a[2], N) and a[2].op == "fnval":
        c = CHARS.get(str(tinfo(a[2].ty).get("callee")).split("is_", 1)[-1].split("'")[0].split('"')[0])
        if c is None:
            return None
        m = {"trim_matches": (1, 1), "trim_start_matches": (1, 0), "trim_end_matches": (0, 1)}.get(name)
        if m is None:
            return None
        while m[0] and t and c(t[0]):
            t = t[1:]
        while m[1] and t and c(t[-1]):
            t = t[:-1]
        return ("list", tuple(t.encode()))
    c = ev(a[2], env)
    if not isinstance(c, int) or not 0 <= c < 0x110000:
        return None
    f = {"trim_matches": t.strip, "trim_start_matches": t.lstrip, "trim_end_matches": t.rstrip}.get(name)
    return ("list", tuple(f(chr(c)).encode())) if f else None


def _evarg(x, env):
    if isinstance(x, N):
        v = ev(x, env)
        return _key(v)
    if isinstance(x, tuple):
        return tuple(_evarg(y, env) for y in x)
    return x


def _elem(b, i, n, env):
    if isinstance(b, tuple):
        if b[0] == "list":
            if 0 <= i < len(b[1]):
                return b[1][i]
            raise Dead()
        if b[0] == "agg":
            if 0 <= i < len(b[3]):
                return b[3][i]
            raise Dead()
        if b[0] == "o":
            if tinfo(b[2]).get("k") == "str" or (tinfo(b[2]).get("name") or "").endswith("string::String"):
                return env.pick(("elem", b[1], i), 1, 126, "int")      # text: ASCII, no NUL
            return _leafval(n, ("elem", b[1], i), env)
    raise Undef()


def _len(b, n, env):
    if isinstance(b, tuple):
        if b[0] == "list":
            return len(b[1])
        if b[0] == "agg":
            return len(b[3])
        if b[0] == "o":
            if b[1] and b[1][0] == "getseq":
                return b[1][2]
            return env.pick(("len", b[1]), 0, vg.MEM, "len")
    raise Undef()


# ------------------------------------------------------------------ leaves and pools
def leaves(n):
    out = set()
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        o = x.op
        if o in ("len", "discr", "get", "rem", "wlen", "cap", "ix", "clock", "tobits", "getseq", "fun"):
            out.add(x)
            continue
        if o in ("in", "fld", "elem"):
            out.add(x)
            continue
        st.extend(kids(x))
    return out


def domain(x):
    if x.op == "discr":
        i = tinfo(x.a[0].ty)
        vs = i.get("variants")
        if vs and i.get("akind") == "enum":
            return [v["discr"] for v in vs]
        return None
    if x.op in ("get", "ix", "in", "fld", "elem") and (x.op == "get" or _scalar(x)):
        if x.op == "ix":
            return None
        lo, hi = rng(x)
        if hi - lo < 1 << 16:
            return range(lo, hi + 1)
    return None


def pool_of(nodes):
    p = {0, 1, 2, 3, 7, 8, 15, 16, 17, 64, 127, 128, 255, 256, 257, 65535, 65536, 8192, 8193}
    for n in nodes:
        if not isinstance(n, N):
            continue
        for x in reach(n):
            if x.op == "k":
                v = x.a[0]
                p.update((v - 1, v, v + 1))
            elif x.op == "sw":
                for k, _ in x.a[1][:40]:
                    p.update((k - 1, k, k + 1))
            elif x.op == "eq":
                _solve(x.a[0], x.a[1], p)
            elif x.op == "ge0":
                _solve(x.a[0], 0, p)
            elif x.op == "trunc":
                b = x.a[0]
                if x.a[2].op == "lin":
                    for v in ((1 << b) - 1, 1 << b, (1 << b) + 1):
                        _solve(x.a[2], v, p)
                p.update(((1 << b) - 1, 1 << b, (1 << b) + 1))
            elif x.op == "lin":
                p.add(x.a[0])
                _solve(x, 0, p)
                for v in (255, 256, 8192, 8193, 65535, 65536):
                    _solve(x, v, p)
    return sorted(x for x in p if -(1 << 64) < x < 1 << 65)


def _solve(l, v, p):
    c, ts = lin(l)
    for t, k in list(ts.items())[:4]:
        q = (v - c) // k
        p.update((q - 1, q, q + 1))


# ------------------------------------------------------------------ decisions
def holds(conds, env):
    for c in conds:
        if not _num(c, env):
            return False
    return True


def witness(pred0, nodes, conds=(), trials=400, seed=None, guess=False):
    """a valuation under which all conds hold and pred(env) is true, or None.
    pred may raise Undef/Dead (valuation not usable). Unless guess is set the valuation may not rest on a
    value chosen for the result of a function that is not interpreted."""
    def pred(env):
        return pred0(env) and (guess or not any(n.op == "fun" for n in env.opq))

    nodes = [n for n in nodes if isinstance(n, N)]
    for n in nodes:
        if n.op == "top":
            return None
    ls = set()
    for n in list(nodes) + list(conds):
        ls |= leaves(n)
    # complete enumeration of small domains
    doms = [(x, domain(x)) for x in ls]
    if doms and all(d is not None for _, d in doms):
        tot = 1
        for _, d in doms:
            tot *= len(d)
        if tot <= 70000:
            import itertools
            for vals in itertools.product(*[d for _, d in doms]):
                env = Env(random.Random(0), [0], {x: v for (x, _), v in zip(doms, vals)})
                try:
                    if holds(conds, env) and pred(env):
                        return env, True
                except (Undef, Dead):
                    continue
            return None, True
    pool = pool_of(list(nodes) + list(conds))
    fixed = {}
    bounds = {}
    for c in conds:
        if c.op == "eq" and c.a[0].op not in ("lin", "mul", "sw", "bin"):
            fixed[c.a[0]] = c.a[1]
    rnd = random.Random(SEED if seed is None else seed)
    for t in range(trials * EFFORT):
        env = Env(rnd, pool, fixed)
        try:
            if holds(conds, env) and pred(env):
                return env, False
        except (Undef, Dead, RecursionError):
            continue
    return None, False


def differ(a, b, conds=(), trials=400, seed=None):
    """None if a and b are (or may be) equal; else a printable valuation under which they differ"""
    if a is b:
        return None
    if a.op in ("top", "bot") or b.op in ("top", "bot"):
        return None
    ca, cb = canon(a), canon(b)
    if ca is cb:
        return None
    w = witness(lambda env: _neq(ev(a, env), ev(b, env)) and not tainted(a, b, env), [a, b], conds, trials, seed, guess=True)
    if w is None or w[0] is None:
        return None
    env = w[0]
    return explain(a, b, env)


def tainted(a, b, env):
    """does the difference rest on the result of a function that is not interpreted, met on one side only?"""
    if not env.opq:
        return False
    out = []
    for n in (a, b):
        e = Env(env.rnd, env.pool, env.fixed)
        e.leaf = env.leaf
        ev(n, e)
        out.append(e.opq)
    return out[0] != out[1]


def surely_equal(a, b):
    if a.op in ("top",) or b.op in ("top",):
        return False
    return a is b or canon(a) is canon(b) or (has_op(a, ("bin", "min", "max")) or has_op(b, ("bin", "min", "max"))) and numeric(a) and numeric(b) and qzero(lsub(a, b))


def cases_zero(d, depth=0):
    """the number d is 0 in every case of the choices in it; sums over the same range are joined"""
    d = canon(d)
    if isk(d):
        return d.a[0] == 0
    if depth > 6:
        return False
    if d.op == "lin":
        if vg.qzero(d):
            return True
        if any(t.op == "sum" for t, _ in d.a[1]):
            gs, rest = vg.sums_of(d)
            rest = dict(rest)
            # a constant per element may have been taken out of the sum
            return all(cases_zero(ladd([b, K(rest.pop(u[1], 0))]), depth + 1) for u, b in gs.items()) and cases_zero(vg.mklin(d.a[0], rest), depth + 1)
    if d.op == "sum":
        return cases_zero(d.a[2], depth + 1)
    sw = next((t for t, _ in d.a[1] if t.op == "sw"), None) if d.op == "lin" else d if d.op == "sw" else None
    if sw is None:
        return False
    s = sw.a[0]
    sws = [x for x in reach(d) if x.op == "sw" and x.a[0] is s]
    keys = {k for x in sws for k, _ in x.a[1]}
    if not all(numeric(v) for x in sws for v in [y for _, y in x.a[1]] + [x.a[2]] if x.op != "bot"):
        return False
    if any(not cases_zero(subst(d, {s: K(k)}), depth + 1) for k in keys):
        return False
    if s.op == "discr" and {v["discr"] for v in tinfo(s.a[0].ty).get("variants") or [{"discr": None}]} <= keys:
        return True
    return cases_zero(subst(d, {x: x.a[2] for x in sws}), depth + 1)


def numeric(n):
    if n.op == "sw":
        return all(numeric(x) for x in [v for _, v in n.a[1]] + [n.a[2]] if x.op != "bot")
    return n.op in ("k", "lin", "len", "mul", "min", "max", "sum", "bin", "eq", "ge0", "not") or tinfo(n.ty).get("k") == "int"


def decided_equal(a, b, conds=()):
    """True when equality is proved (same normal form or completely enumerated)"""
    if surely_equal(a, b):
        return True
    if has_op(a, ("top",)) or has_op(b, ("top",)):
        return False
    if (has_op(a, ("sw",)) or has_op(b, ("sw",))) and numeric(a) and numeric(b) and cases_zero(lsub(a, b)):
        return True
    w = witness(lambda env: _neq(ev(a, env), ev(b, env)), [a, b], conds, 0, guess=True)
    return w is not None and w[0] is None and w[1]


def _neq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x != y
    r = _cmp(x, y)
    return r is False


def _cmp(x, y):
    """True / False / None (unknown)"""
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, int) or isinstance(y, int):
        return None
    if x == y:
        return True
    if x[0] == y[0] == "agg":
        if x[2] != y[2]:
            return False
        if len(x[3]) != len(y[3]):
            return False
        rs = [_cmp(p, q) for p, q in zip(x[3], y[3])]
        return False if False in rs else (None if None in rs else True)
    if x[0] == y[0] == "list":
        if len(x[1]) != len(y[1]):
            return False
        rs = [_cmp(p, q) for p, q in zip(x[1], y[1])]
        return False if False in rs else (None if None in rs else True)
    if x[0] == y[0] == "fb":
        if x[1] == y[1] and _unpack(x[2], x[1]) != _unpack(x[2], x[1]) and _unpack(y[2], y[1]) != _unpack(y[2], y[1]):
            return None         # two NaNs
        return False
    if x[0] == y[0] == "o":
        # two opaque values: different inputs can be given different values
        simple = ("in", "fld", "elem")
        if x[1][0] in simple and y[1][0] in simple:
            return False
        return None
    if x[0] == "fb" and y[0] == "o" or x[0] == "o" and y[0] == "fb":
        o = x if x[0] == "o" else y
        if o[1][0] in ("in", "fld", "elem"):
            return False
    return None


def explain(a, b, env):
    parts = []
    for k, v in list(env.leaf.items())[:8]:
        parts.append(f"{_kname(k)}={v}")
    for n, v in list(env.fixed.items())[:8]:
        parts.append(f"{show(n)}={v}")

    def val(n):
        try:
            return _vs(ev(n, env))
        except (Undef, Dead):
            return "?"
    return f"with {', '.join(parts) or 'any input'}: {val(a)} instead of {val(b)}"


def _vs(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, tuple) and v and v[0] == "o":
        return _kname(v[1])
    if isinstance(v, tuple) and v and v[0] == "agg":
        i = tinfo(v[1])
        vs = i.get("variants") or []
        nm = vs[v[2]]["name"] if vs and v[2] is not None and v[2] < len(vs) else ""
        return nm + ("(" + ", ".join(_vs(x) for x in v[3]) + ")" if v[3] else "")
    if isinstance(v, tuple) and v and v[0] == "list":
        return "[" + ", ".join(_vs(x) for x in v[1][:6]) + ("…" if len(v[1]) > 6 else "") + "]"
    if isinstance(v, tuple) and v and v[0] == "fb":
        return f"float bits {v[2]:#x}"
    return str(v)[:60]


def _kname(k):
    if isinstance(k, tuple) and k:
        if k[0] == "in":
            return str(k[1])
        if k[0] == "fld":
            return f"{_kname(k[1])}.{k[3]}"
        if k[0] == "elem":
            return f"{_kname(k[1])}[{k[2]}]"
        if k[0] in ("len", "discr", "bits"):
            return f"{k[0]}({_kname(k[1])})"
        if k[0] == "get":
            return f"read#{k[1]}"
        if k[0] == "rem":
            return "bytes in buffer"
    return str(k)[:50]


# ------------------------------------------------------------------ structural comparison
def cases_of(n):
    """discriminants on which value n switches"""
    return None


def deep(a, b, ty, path="", depth=0, out=None, conds=(), am=None):
    """compares two values of type ty leaf by leaf; yields (path, a_leaf, b_leaf, conds) for leaves whose
    normal forms differ"""
    if out is None:
        out = []
    if a is b and not has_op(a, ("top",)):
        return out
    if a.op == "top" or b.op == "top":
        out.append((path, a, b, conds))
        return out
    if a.op == "bot" or b.op == "bot":
        return out
    i = tinfo(ty)
    k = i.get("k")
    if depth > 12 or k is None:
        out.append((path, a, b, conds))
        return out
    if k in ("int", "bool", "char", "float", "never"):
        if not surely_equal(a, b):
            out.append((path, a, b, conds))
        return out
    if k == "tuple":
        for j, t in enumerate(i["elems"]):
            deep(FLD(a, None, j, t), FLD(b, None, j, t), t, f"{path}.{j}", depth + 1, out, conds, am)
        return out
    et = elem_ty(mk("opaque", ("t",), ty))
    if k in ("array", "slice", "str") or et is not None:
        la, lb = LEN(a), LEN(b)
        if am is not None:
            la, lb = am(la), am(lb)
        if not surely_equal(la, lb):
            out.append((path + ".len", la, lb, conds))
            if (i.get("name") or "").endswith("string::String"):
                for j in range(4):
                    c = GE0(ladd([la, K(-1 - j)])), GE0(ladd([lb, K(-1 - j)]))
                    out.append((f"{path}[{j}]", ELEM(a, K(j)), ELEM(b, K(j)), conds + tuple(x for x in c if x is not TRUE)))
            return out
        if isk(la) and la.a[0] <= 64:
            for j in range(la.a[0]):
                deep(ELEM(a, K(j)), ELEM(b, K(j)), et, f"{path}[{j}]", depth + 1, out, conds, am)
            return out
        u = vg.fresh()
        vg.ix_bounds[u] = la
        ix = IX(u)
        deep(ELEM(a, ix), ELEM(b, ix), et, f"{path}[*]", depth + 1, out, conds, am)
        return out
    vs = i.get("variants")
    if k == "adt" and vs is not None:
        if i.get("akind") == "enum":
            da, db = DISCR(a), DISCR(b)
            if am is not None:
                da, db = am(da), am(db)
            if not surely_equal(da, db):
                out.append((path, da, db, conds))
                # fields are compared under the assumption that the variants agree
            for vi, v in enumerate(vs):
                if not v["fields"]:
                    continue
                m = {}
                ok = True
                cs = conds
                for d in (da, db):
                    if d.op == "k":
                        if d.a[0] != v["discr"]:
                            ok = False
                    elif d.op != "top":
                        m[d] = K(v["discr"])
                        cs = cs + (EQ(d, K(v["discr"])),)
                if not ok or any(c is FALSE for c in cs):
                    continue
                for fi, f in enumerate(v["fields"]):
                    x, y = FLD(a, vi, fi, f["ty"]), FLD(b, vi, fi, f["ty"])
                    if m:
                        x, y = subst(x, m), subst(y, m)
                    deep(x, y, f["ty"], f"{path}.{v['name']}.{f['name']}", depth + 1, out, cs, am)
            return out
        for fi, f in enumerate(vs[0]["fields"] if vs else []):
            deep(FLD(a, None, fi, f["ty"]), FLD(b, None, fi, f["ty"]), f["ty"], f"{path}.{f['name']}", depth + 1, out, conds, am)
        return out
    out.append((path, a, b, conds))
    return out
