"""Comparison of two byte-emitting token sequences, octet by octet where their shapes differ."""
from base import *
from models import BYTE, CAT


def norm(toks):
    """tokens -> list of units: ('put', w, value) big-endian, ('rep', uid, n, units), ('alt', scr, cases, default), ('other', what)"""
    out = []
    for t in toks or ():
        k = t[0]
        if k == "put":
            w, e, v = t[2], t[3], t[4]
            if e == "le" and w > 1:
                out.extend(("put", 1, BYTE(v, w, w - 1 - i)) for i in range(w))
            else:
                out.append(("put", w, v))
        elif k == "putseq":
            s = t[1]
            n = LEN(s)
            if isk(n) and n.a[0] <= 512:
                out.extend(("put", 1, ELEM(s, K(j))) for j in range(n.a[0]))
            elif s.op == "seq":
                for p in s.a:
                    if p[0] == "1":
                        out.append(("put", 1, p[1]))
                    else:
                        out.extend(norm([("putseq", p[1])]))
            else:
                u = vg.fresh()
                vg.ix_bounds[u] = n
                out.append(("rep", u, n, [("put", 1, ELEM(s, IX(u)))]))
        elif k == "rep":
            b = norm(t[3])
            if not b:
                continue
            if isk(t[2]) and t[2].a[0] <= 256:
                for j in range(t[2].a[0]):
                    out.extend(usubst(b, {IX(t[1]): K(j)}))
            else:
                out.append(("rep", t[1], t[2], b))
        elif k == "alt":
            cs = [(c, norm(ts)) for c, ts in t[2]]
            d = norm(t[3]) if t[3] is not None else None
            if not d and all(not b for _, b in cs):
                continue
            out.append(("alt", t[1], cs, d))
        elif k == "other":
            out.append(("other", t[1]))
        # reads and marks emit nothing
    return out


def usubst(us, m):
    if not m:
        return list(us)
    out = []
    for u in us:
        k = u[0]
        if k == "put":
            out.append(("put", u[1], subst(u[2], m)))
        elif k == "rep":
            n = subst(u[2], m)
            b = usubst(u[3], m)
            if isk(n) and n.a[0] <= 256:
                for j in range(n.a[0]):
                    out.extend(usubst(b, {IX(u[1]): K(j)}))
            else:
                out.append(("rep", u[1], n, b))
        elif k == "alt":
            scr = subst(u[1], m)
            if isk(scr):
                b = next((ts for c, ts in u[2] if c == scr.a[0]), u[3])
                out.extend(usubst(b or [], m))
            else:
                out.append(("alt", scr, [(c, usubst(b, m)) for c, b in u[2]], usubst(u[3], m) if u[3] is not None else None))
        else:
            out.append(u)
    return out


def usize(us):
    parts = []
    for u in us:
        if u[0] == "put":
            parts.append(K(u[1]))
        elif u[0] == "rep":
            b = usize(u[3])
            if b.op == "top":
                return b
            parts.append(SUM(u[1], u[2], b))
        elif u[0] == "alt":
            parts.append(SW(u[1], tuple((c, usize(b)) for c, b in u[2]), usize(u[3]) if u[3] is not None else BOT))
        else:
            return TOP("other")
    return ladd(parts) if parts else K(0)


def zero_rep(t, s, scr):
    """`if n > 0 { repeat n }` is `repeat n`"""
    arms = [(c, b) for c, b in t[2]] + ([(None, t[3])] if t[3] is not None else [])
    full = [(c, b) for c, b in arms if b]
    if len(full) != 1 or len(full[0][1]) != 1 or len(arms) != 2:
        return None
    rep = full[0][1][0]
    if rep[0] == "getseq":
        n = s(rep[2])
    elif rep[0] == "rep":
        n = s(rep[2])
    else:
        return None
    empty = next(c for c, b in arms if not b)
    fc = full[0][0]
    # the empty arm is taken exactly when n == 0
    if empty is not None:
        e = EQ(scr, K(empty))
    else:
        e = NOT(EQ(scr, K(fc)))
    z = EQ(n, K(0)) if rng(n)[0] >= 0 else None
    if z is None:
        return None
    if e is z or decided_equal(e, z):
        return rep
    # e implies n == 0 is enough
    for c in conjuncts(e):
        if c is z:
            return rep
        if c.op == "ge0" and surely_equal(c.a[0], lmul(K(-1), n)):
            return rep
    return None


class Cmp:
    def __init__(self, trials=300):
        self.out = []           # (kind, position, message)
        self.n = 0
        self.trials = trials

    def diff(self, kind, pos, msg):
        self.out.append((kind, pos, msg))

    def leaf(self, a, b, conds, pos):
        self.n += 1
        if a is b and a.op != "top":
            return
        if surely_equal(a, b):
            return
        if has_op(a, ("top",)) or has_op(b, ("top",)):
            self.diff("undecided", pos, f"{show(a)[:160]} against {show(b)[:160]}")
            return
        sa, sb = simplify(a, conds), simplify(b, conds)
        if surely_equal(sa, sb) or decided_equal(sa, sb, conds):
            return
        d = differ(sa, sb, conds, self.trials)
        if d:
            self.diff("diff", pos, f"{show(a)[:200]} where {show(b)[:200]} is expected ({d})")
        else:
            self.diff("undecided", pos, f"{show(a)[:160]} against {show(b)[:160]}")

    def run(self, A, B, conds=(), base="", depth=0):
        A, B = list(A), list(B)
        off = K(0)
        while A or B:
            if len(self.out) > 12:
                return
            pos = f"{base}octet {show(off)}"
            a = A[0] if A else None
            b = B[0] if B else None
            for L in (A, B):
                if L and L[0][0] == "alt":
                    z = zero_rep(L[0], lambda n: n, L[0][1])
                    if z is not None:
                        L[0] = z
            a = A[0] if A else None
            b = B[0] if B else None
            if a is None or b is None:
                rest = usize(A or B)
                side = "extra" if A else "missing"
                if isk(rest, 0):
                    return
                if depth < 8 and (A or B)[0][0] == "alt":
                    pass
                else:
                    w = None
                    if rest.op != "top":
                        w, _ = witness(lambda env: ev.ev(rest, env) > 0, [rest], conds) or (None, False)
                    what = (A or B)[0]
                    self.diff("diff" if w is not None else "undecided", pos, f"{side}: {desc(what)}")
                    return
            if a is not None and a[0] == "alt" or b is not None and b[0] == "alt":
                if depth > 8:
                    self.diff("undecided", pos, "too many alternatives")
                    return
                u = a if a is not None and a[0] == "alt" else b
                self.split(u[1], u, A, B, conds, base + (f"+{show(off)} " if not isk(off, 0) else ""), depth)
                return
            if a[0] == "other" or b[0] == "other":
                self.diff("undecided", pos, f"{a} / {b}"[:200])
                return
            if a[0] == "put" and b[0] == "put":
                if a[1] == b[1]:
                    self.leaf(a[2], b[2], conds, pos)
                    off = ladd([off, K(a[1])])
                    A.pop(0)
                    B.pop(0)
                    continue
                # different widths: a whole-field comparison first, then octets
                wa, wb = self.group(A, B)
                if wa is None:
                    self.structural(A, B, conds, pos)
                    return
                na, nb = [], []
                for w, v in wa:
                    na.extend(BYTE(v, w, i) for i in range(w))
                for w, v in wb:
                    nb.extend(BYTE(v, w, i) for i in range(w))
                before = len(self.out)
                for j, (x, y) in enumerate(zip(na, nb)):
                    self.leaf(x, y, conds, f"{base}octet {show(ladd([off, K(j)]))}")
                    if len(self.out) > before:
                        # one message for a mismatched field
                        k = self.out[before][0]
                        p = self.out[before][1]
                        m = self.out[before][2]
                        del self.out[before:]
                        self.diff(k, p, f"fields of {[w for w, _ in wa]} octets where {[w for w, _ in wb]} are expected: {m}")
                        break
                off = ladd([off, K(len(na))])
                continue
            if a[0] == "rep" and b[0] == "rep":
                ix = vg.fresh()
                vg.ix_bounds[ix] = b[2]
                before = len(self.out)
                self.leaf(a[2], b[2], conds, pos + " count")
                if len(self.out) > before:
                    return
                ab, bb = usubst(a[3], {IX(a[1]): IX(ix)}), usubst(b[3], {IX(b[1]): IX(ix)})
                self.run(ab, bb, conds, f"{base}element of list at octet {show(off)[:40]}, ", depth + 1)
                off = ladd([off, usize([b])])
                A.pop(0)
                B.pop(0)
                continue
            self.structural(A, B, conds, pos)
            return

    def group(self, A, B):
        wa, wb = [], []
        sa = sb = 0
        i = j = 0
        while True:
            if sa <= sb:
                if i >= len(A) or A[i][0] != "put":
                    return None, None
                wa.append((A[i][1], A[i][2]))
                sa += A[i][1]
                i += 1
            else:
                if j >= len(B) or B[j][0] != "put":
                    return None, None
                wb.append((B[j][1], B[j][2]))
                sb += B[j][1]
                j += 1
            if sa == sb:
                del A[:i]
                del B[:j]
                return wa, wb

    def structural(self, A, B, conds, pos):
        sa, sb = usize(A), usize(B)
        if sa.op != "top" and sb.op != "top" and not surely_equal(sa, sb):
            d = differ(simplify(sa, conds), simplify(sb, conds), conds, self.trials)
            if d:
                self.diff("diff", pos, f"{desc(A[0])} where {desc(B[0])} is expected; sizes differ {d}")
                return
        self.diff("undecided", pos, f"{desc(A[0])} against {desc(B[0])}")

    def split(self, scr, u, A, B, conds, base, depth):
        keys = [c for c, _ in u[2]]
        for c in keys:
            cond = EQ(scr, K(c))
            if cond is FALSE or excluded(scr, c, conds):
                continue
            self.run(self.spec(A, scr, c), self.spec(B, scr, c), conds + ((cond,) if cond is not TRUE else ()), base + f"[{show(scr)[:60]} = {c}] ", depth + 1)
        if u[3] is not None and not exhausted(scr, keys, conds):
            neg = tuple(NOT(EQ(scr, K(c))) for c in keys)
            if any(x is FALSE for x in neg):
                return
            lo, hi = rng(scr)
            rest = None
            if (lo, hi) == (0, 1) and len(keys) == 1:
                rest = 1 - keys[0]
            elif scr.op == "discr":
                vs = [v["discr"] for v in tinfo(scr.a[0].ty).get("variants") or []]
                left = [d for d in vs if d not in keys]
                if len(left) == 1:
                    rest = left[0]
            if rest is not None:
                cond = EQ(scr, K(rest))
                self.run(self.spec(A, scr, rest), self.spec(B, scr, rest), conds + ((cond,) if cond is not TRUE else ()), base + f"[{show(scr)[:60]} = {rest}] ", depth + 1)
            else:
                self.run(self.dflt(A, scr, keys), self.dflt(B, scr, keys), conds + neg, base + f"[{show(scr)[:60]} other] ", depth + 1)

    def spec(self, us, scr, c):
        m = {scr: K(c)}
        if scr.op == "eq" and c == 1 and scr.a[0].op != "lin":
            m[scr.a[0]] = K(scr.a[1])
        if scr.op == "ge0":
            m[NOT(scr)] = K(1 - c)
        if scr.op == "not":
            m[scr.a[0]] = K(1 - c)
        r = usubst(us, m)
        return flatten_alts(r, scr, c)

    def dflt(self, us, scr, keys):
        out = []
        for u in us:
            if u[0] == "alt" and u[1] is scr:
                cs = [(c, b) for c, b in u[2] if c not in keys]
                if cs:
                    out.append(("alt", scr, cs, u[3]))
                else:
                    out.extend(u[3] or [])
            else:
                out.append(u)
        return out


def flatten_alts(us, scr, c):
    return us


def excluded(scr, c, conds):
    return any(x.op == "not" and x.a[0].op == "eq" and x.a[0].a[0] is scr and x.a[0].a[1] == c for x in conds)


def exhausted(scr, keys, conds):
    lo, hi = rng(scr)
    if hi - lo < 70000 and all(k in keys for k in range(int(lo), int(hi) + 1)):
        return True
    if scr.op == "discr":
        vs = tinfo(scr.a[0].ty).get("variants")
        if vs and tinfo(scr.a[0].ty).get("akind") == "enum":
            return all(v["discr"] in keys or excluded(scr, v["discr"], conds) for v in vs)
    return False


def desc(u):
    if u is None:
        return "nothing"
    if u[0] == "put":
        return f"{u[1]}-octet field {show(u[2])[:120]}"
    if u[0] == "rep":
        return f"list of {show(u[2])[:80]} elements ({desc(u[3][0]) if u[3] else ''})"
    if u[0] == "alt":
        return f"alternative on {show(u[1])[:80]}"
    return str(u)[:100]


def compare_units(A, B, conds=(), trials=300):
    c = Cmp(trials)
    c.run(A, B, conds)
    return c
