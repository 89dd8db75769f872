"""Shared by the rules: what is analysed (encoders, decoders, length functions, PDUs), the Ok path of a
result, and the collection of verdicts."""
from collections import defaultdict
from vg import *
import vg
import ev
from ev import differ, surely_equal, decided_equal, witness, deep, explain, Undef, Dead
from crate import Crate
from interp import tok_size, show_toks, map_tok, Undecided

HDR_TRAIT = "common::generic_header::GenericHeader"
PDU_TRAIT = "common::pdu::Pdu"


class Report:
    """verdicts of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.viols = {}
        self.undec = {}
        self.done = 0
        self.samples = []
        self.counts = defaultdict(int)
        self.objects = defaultdict(set)
        self.rules = []

    def ok(self, what, obj=None, kind="obligation"):
        self.done += 1
        self.counts[kind] += 1
        if obj is not None:
            self.objects[kind].add(obj)
        if len(self.samples) < 400:
            self.samples.append(what if obj is None else f"{obj}: {what}")

    def viol(self, key, where, msg, obj=None, kind="obligation"):
        """key: stable identification of the violation (no line numbers)"""
        self.counts[kind] += 1
        if obj is not None:
            self.objects[kind].add(obj)
        self.viols.setdefault(f"{self.pid}:{key}", (where, msg))

    def undecided(self, key, why, kind="obligation"):
        self.counts[kind] += 1
        self.undec.setdefault(f"{self.pid}:{key}", why)

    def rule(self, text):
        self.rules.append(text)


def where(f, line=None):
    sp = f.get("span") or ["?", 0]
    return f"{sp[0]}:{line or sp[1]} {f['key']}"


def short(n):
    return (n or "").split("::")[-1]


def short_ty(n):
    """type name without module paths, generic arguments kept"""
    import re
    return re.sub(r"[A-Za-z_0-9]+::", "", n or "")


def refof(t):
    i = tinfo(t)
    return i["of"] if i.get("k") == "ref" else t


def is_path(t, name):
    i = tinfo(refof(t))
    return (i.get("path") or "").split("::")[-1] == name


class Item:
    """a type with its encoders, decoders and length functions"""

    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.enc, self.dec, self.len = [], [], []
        self.LENGTH = None

    @property
    def short(self):
        return short_ty(self.name)


class Ctx:
    def __init__(self, facts):
        self.C = Crate(facts)
        self.F = facts
        self.items = {}
        self.pdus = {}
        C = self.C
        for f in C.fns:
            ps = [f["locals"][i + 1] for i in range(f["argc"])]
            ret = f["locals"][0]
            if not ps:
                continue
            if f.get("derived"):
                continue
            if f.get("impl_trait") == PDU_TRAIT:
                p = self.pdus.setdefault(short(f["self_name"]), {"name": f["self_name"]})
                p[f["name"]] = f
                continue
            t0 = tinfo(ps[0])
            if len(ps) == 2 and t0.get("k") == "ref" and is_path(ps[1], "BytesMut") and tinfo(ps[1]).get("k") == "ref" \
                    and tinfo(ps[1]).get("mut", True) and tinfo(ret).get("k") == "tuple" and not tinfo(ret)["elems"]:
                self.item(t0["of"]).enc.append(f)
            elif f["name"] == "field_len" and len(ps) == 1:
                self.item(refof(ps[0])).len.append(f)
            elif any(is_path(p, "Bytes") for p in ps) and tinfo(ret).get("k") is not None:
                self.item(ret).dec.append(f)
        for (sn, tr, nm), c in C.consts.items():
            if nm == "LENGTH" and tr and tr.endswith("SerializedLength"):
                t = self.tyname(sn)
                if t is not None:
                    self.item(t).LENGTH = c
        for p in self.pdus.values():
            p["ty"] = self.tyname(p["name"])
            for f in C.fns:
                if f.get("self_name") == p["name"] and not f.get("impl_trait") and f["name"] in ("new", "deserialize_body"):
                    p[f["name"]] = f
                if f.get("self_name") == p["name"] and f["name"] == "default" and (f.get("impl_trait") or "").endswith("Default"):
                    p["default"] = f

    def flag_mask(self, ty):
        """all defined flags of a bitflags type"""
        if not hasattr(self, "_masks"):
            self._masks = {}
            for f in self.C.fns:
                if f["name"] == "all" and f["argc"] == 0 and not f.get("impl_trait"):
                    v = self.run(f).ret
                    while v is not None and v.op == "agg" and len(v.a[1]) == 1:
                        v = v.a[1][0]
                    if v is not None and v.op == "k":
                        self._masks[f["locals"][0]] = v.a[0]
        return self._masks.get(ty)

    def tyname(self, n):
        if not hasattr(self, "_tn"):
            self._tn = {}
            for i, t in enumerate(self.C.T):
                self._tn.setdefault(t.get("name"), i)
                if t.get("path") and not t.get("args"):
                    self._tn.setdefault(t["path"], i)
        return self._tn.get(n)

    def item(self, ty):
        it = self.items.get(ty)
        if it is None:
            it = self.items[ty] = Item(tinfo(ty).get("name"), ty)
        return it

    def run(self, f):
        return self.C.run(f)


# ------------------------------------------------------------------ conditions and paths
def simplify(n, conds):
    """n under the assumption of conds (booleans that are known to hold)"""
    m = {}
    for c in conds:
        if c.op == "eq":
            if c.a[0].op not in ("lin",):
                m[c.a[0]] = K(c.a[1])
            m[c] = TRUE
        elif c.op == "not":
            m[c.a[0]] = FALSE
            if c.a[0].op == "eq" and c.a[0].a[0].op == "discr":
                # one of two alternatives excluded
                x = c.a[0].a[0]
                ds = [v["discr"] for v in tinfo(x.a[0].ty).get("variants") or []]
                gone = {d.a[0].a[1] for d in conds if d.op == "not" and d.a[0].op == "eq" and d.a[0].a[0] is x}
                left = [d for d in ds if d not in gone]
                if len(left) == 1:
                    m[x] = K(left[0])
        elif c.op == "ge0":
            m[c] = TRUE
            m[NOT(c)] = FALSE
        elif c.op != "k":
            m[c] = TRUE
    n = subst(n, m) if m else n
    return strip_trunc(n, conds)


def tighten(n, conds):
    """simplify, and decide comparisons and exclude alternatives by the bounds that conds give"""
    n = simplify(n, conds)
    if not any(c.op == "ge0" for c in conds):
        return n
    for _ in range(4):
        m = {}
        for x in reach(n):
            if x.op == "ge0":
                if upper(x.a[0], conds) < 0:
                    m[x] = FALSE
                elif upper(lmul(K(-1), x.a[0]), conds) <= 0:
                    m[x] = TRUE
            elif x.op in ("min", "max"):
                a, b = x.a
                if upper(lsub(a, b), conds) <= 0:
                    m[x] = a if x.op == "min" else b
                elif upper(lsub(b, a), conds) <= 0:
                    m[x] = b if x.op == "min" else a
            elif x.op == "sw" and x.a[0].op in ("len", "lin", "get", "in", "fld", "elem"):
                lo, hi = -upper(lmul(K(-1), x.a[0]), conds), upper(x.a[0], conds)
                left = tuple((k, v) for k, v in x.a[1] if lo <= k <= hi)
                if len(left) < len(x.a[1]):
                    m[x] = SW(x.a[0], left, x.a[2]) if left else x.a[2]
        if not m:
            return n
        n2 = subst(n, m)
        if n2 is n:
            return n
        n = n2
    return n


def upper(l, conds):
    """an upper bound of linear form l from ranges and conds"""
    hi = rng(l)[1]
    c0, t0 = lin(l)
    for c in conds:
        if c.op == "ge0":
            # d + sum(t) >= 0 with t0 == -r*t for some r > 0 gives l <= c0 + r*d
            d, t = lin(c.a[0])
            if t0 and len(t) == len(t0) and all(x in t for x in t0):
                x0 = next(iter(t0))
                num, den = -t0[x0], t[x0]
                if den < 0:
                    num, den = -num, -den
                if num > 0 and all(k * den == -num * t[x] for x, k in t0.items()):
                    hi = min(hi, c0 + num * d // den)
    return hi


def strip_trunc(n, conds, memo=None):
    """removes truncations that cannot lose anything under conds"""
    ubs = []
    for c in conds:
        if c.op == "ge0":
            ubs.append(c.a[0])
    if not ubs or not has_op(n, ("trunc",)):
        return n
    m = {}
    for x in reach(n):
        if x.op == "trunc":
            if upper(x.a[2], conds) <= (1 << (x.a[0] - (1 if x.a[1] else 0))) - 1 and rng(x.a[2])[0] >= 0:
                m[x] = x.a[2]
    return subst(n, m) if m else n


def branches(n):
    """[(conds, value)] of a switch node: conds are boolean nodes"""
    scr = n.a[0]
    out = []
    ks = []
    for k, v in n.a[1]:
        out.append(((EQ(scr, K(k)),), v))
        ks.append(k)
    neg = tuple(NOT(EQ(scr, K(k))) for k in ks)
    if n.a[2].op != "bot":
        out.append((neg, n.a[2]))
    return out


def conjuncts(c, truth=True, depth=0):
    """the conditions that hold together when boolean node c has the given truth value"""
    if c.op == "not":
        return conjuncts(c.a[0], not truth, depth)
    if c.op == "eq" and c.a[1] in (0, 1) and rng(c.a[0]) == (0, 1):
        return conjuncts(c.a[0], truth == (c.a[1] == 1), depth)
    if c.op == "sw" and rng(c) == (0, 1) and depth < 12:
        # the arms that can give the wanted truth value
        arms = [(cs, v) for cs, v in branches(c) if not (isk(v) and bool(v.a[0]) != truth)]
        arms = [(cs, v) for cs, v in arms if not any(x is FALSE for x in cs)]
        if len(arms) == 1:
            cs, v = arms[0]
            out = []
            for x in cs:
                out.extend(conjuncts(x, True, depth + 1))
            if not isk(v):
                out.extend(conjuncts(v, truth, depth + 1))
            return out
    r = c if truth else NOT(c)
    return [] if r is TRUE else [r]


def result_leaves(n, conds=(), depth=0):
    """[(conds, leaf)] over the switches at the top of a Result value"""
    if n.op == "sw" and depth < 12:
        out = []
        for cs, v in branches(n):
            if any(c is FALSE for c in cs):
                continue
            cs = tuple(x for c in cs if c is not TRUE for x in conjuncts(c))
            out.extend(result_leaves(v, conds + cs, depth + 1))
        return out
    if n.op == "bot":
        return []
    if n.op == "agg" and len(n.a[1]) == 1 and n.a[1][0].op == "sw" and variant_name(n) == "Err":
        return [(cs, AGG(n.ty, n.a[0], [v])) for cs, v in result_leaves(n.a[1][0], conds, depth + 1)]
    return [(conds, n)]


def variant_name(n):
    """variant of an aggregate enum value"""
    if n.op != "agg":
        return None
    vs = tinfo(n.ty).get("variants")
    return vs[n.a[0]]["name"] if vs and n.a[0] is not None else None


def ok_leaves(ret):
    return [] if ret is None else [(c, v) for c, v in result_leaves(ret) if variant_name(v) == "Ok"]


def toks_under(toks, conds):
    """token list specialised to the assumption conds; None when a contradiction is found"""
    m = {}
    out = []
    for t in toks or ():
        k = t[0]
        if k == "alt":
            scr = simplify(t[1], conds)
            if isk(scr):
                body = next((ts for c, ts in t[2] if c == scr.a[0]), t[3])
                if body is None:
                    return None
                r = toks_under(body, conds)
                if r is None:
                    return None
                out.extend(r)
                continue
            # excluded values by negative conditions
            ex = set()
            for c in conds:
                if c.op == "not" and c.a[0].op == "eq" and c.a[0].a[0] is scr:
                    ex.add(c.a[0].a[1])
            cases = [(c, ts) for c, ts in t[2] if c not in ex]
            if not cases:
                r = toks_under(t[3], conds) if t[3] is not None else None
                if r is None:
                    return None
                out.extend(r)
                continue
            out.append(("alt", scr, tuple((c, tuple(toks_under(ts, conds) or ())) for c, ts in cases),
                        None if t[3] is None else tuple(toks_under(t[3], conds) or ())))
        else:
            out.append(map_tok(t, lambda x: simplify(x, conds)))
    return tuple(out)


def ok_path(r):
    """(conds, ok value, tokens) of the single Ok path of result r, or a list of them"""
    res = []
    for conds, leaf in ok_leaves(r.ret):
        t = toks_under(r.toks, conds)
        v = simplify(leaf.a[1][0], conds) if leaf.a[1] else UNIT
        if t is not None:
            res.append((conds, v, t))
    return res


def flat_puts(toks):
    """tokens as a list of top-level units with byte offsets while the offset is constant"""
    off = K(0)
    out = []
    for t in toks:
        out.append((off, t))
        s = tok_size([t], False)
        off = ladd([off, s])
    return out
