"""Abstract interpreter over monomorphised MIR.

One forward dataflow pass per function in the value-graph domain of vg.py: states are joined at
immediate post-dominators (gated joins), loops are summarised by their per-iteration effect
(induction variables, appended sequences, repeated buffer tokens), local callees are analysed in
place.  Reads and writes of bytes::Buf / BufMut become wire tokens.  Anything the domain cannot
express becomes 'top', which never supports a verdict.
"""
import re
import sys
from vg import *
import vg

sys.setrecursionlimit(1_000_000)


class Undecided(Exception):
    pass


class State:
    __slots__ = ("cells", "eff", "pc")

    def __init__(self, cells=None, eff=None, pc=()):
        self.cells = cells if cells is not None else {}
        self.eff = eff if eff is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.cells), dict(self.eff), self.pc)


class Fn:
    """CFG facts of one function body."""

    def __init__(self, f):
        self.f = f
        self.blocks = self._thread(f["blocks"])
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b["cleanup"]:
                continue
            t = b["t"]
            k = t[0]
            if k == "goto":
                self.succ[i] = [t[1]]
            elif k == "switch":
                s = []
                for _, x in t[3]:
                    if x not in s:
                        s.append(x)
                if t[4] not in s:
                    s.append(t[4])
                self.succ[i] = s
            elif k == "drop":
                self.succ[i] = [t[2]]
            elif k == "call":
                if t[4] is not None:
                    self.succ[i] = [t[4]]
            elif k == "assert":
                self.succ[i] = [t[4]]
        # blocks that can reach a return
        self.pred = [[] for _ in range(n)]
        for i, s in enumerate(self.succ):
            for j in s:
                self.pred[j].append(i)
        live = set(i for i, b in enumerate(self.blocks) if b["t"][0] == "return" and not b["cleanup"])
        work = list(live)
        while work:
            x = work.pop()
            for p in self.pred[x]:
                if p not in live:
                    live.add(p)
                    work.append(p)
        self.live = live
        self._dom()
        self.loops = self._loops()
        self._pd = {}
        self._live = None

    @staticmethod
    def _thread(blocks):
        """redirect every jump to an empty forwarding block to where it leads"""
        fwd = {}
        for i, b in enumerate(blocks):
            if not b["s"] and b["t"][0] == "goto" and not b["cleanup"]:
                path, x = [], i
                while x not in fwd and not blocks[x]["s"] and blocks[x]["t"][0] == "goto" and x not in path and len(path) < 20000:
                    path.append(x)
                    x = blocks[x]["t"][1]
                    if x == path[0]:
                        break
                end = fwd.get(x, x)
                for p in path:
                    fwd[p] = end
        if not fwd:
            return blocks
        g = lambda x: fwd.get(x, x)
        out = []
        for b in blocks:
            t = b["t"]
            k = t[0]
            if k == "goto":
                t = ["goto", g(t[1])] + t[2:]
            elif k == "switch":
                t = t[:3] + [[[v, g(x)] for v, x in t[3]], g(t[4])] + t[5:]
            elif k == "drop":
                t = t[:2] + [g(t[2])] + t[3:]
            elif k == "call" and t[4] is not None:
                t = t[:4] + [g(t[4])] + t[5:]
            elif k == "assert":
                t = t[:4] + [g(t[4])] + t[5:]
            out.append(dict(s=b["s"], t=t, cleanup=b["cleanup"]))
        return out

    def _dom(self):
        n = len(self.blocks)
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.reach = seen
        num = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        kids = {}
        for b, d in idom.items():
            if b != d:
                kids.setdefault(d, []).append(b)
        self.tin, self.tout = {}, {}
        clock = 0
        st = [(0, iter(kids.get(0, ())))]
        self.tin[0] = 0
        while st:
            b, it = st[-1]
            for c in it:
                clock += 1
                self.tin[c] = clock
                st.append((c, iter(kids.get(c, ()))))
                break
            else:
                self.tout[b] = clock
                st.pop()

    def dominates(self, a, b):
        if a not in self.tin or b not in self.tin:
            return a == b
        return self.tin[a] <= self.tin[b] <= self.tout[a]

    def resolve(self, b):
        """skip over empty forwarding blocks"""
        n = 0
        while b is not None and b >= 0 and n < 10000:
            blk = self.blocks[b]
            if blk["t"][0] == "goto" and not blk["s"] and b not in self.loops:
                b = blk["t"][1]
                n += 1
            else:
                break
        return b

    # ---- liveness of locals whose address is never taken (bit masks)
    def livein(self, b):
        if self._live is None:
            self._liveness()
        return self._live[b]

    def _liveness(self):
        f = self.f
        n = len(f["locals"])
        borrowed = 1      # the return place is always live
        use, kill = [], []

        def mask_place(pl, write):
            """(uses, kills) of mentioning a place"""
            u = 0
            for e in pl[1:]:
                if e != "*" and e[0] == "i":
                    u |= 1 << e[1]
            if write and len(pl) == 1:
                return u, 1 << pl[0]
            return u | 1 << pl[0], 0

        def op(o):
            return mask_place(o[1], False)[0] if o[0] in ("c", "m") else 0

        def ops_in(x):
            """uses in any nested operand/place structure of an rvalue"""
            u = 0
            k = x[0]
            if k in ("use",):
                return op(x[1])
            if k in ("ref", "reborrow"):
                return mask_place(x[2], False)[0]
            if k == "rawptr" or k == "discr":
                return mask_place(x[1], False)[0]
            if k == "repeat":
                return op(x[1])
            if k in ("cast", "un"):
                return op(x[2])
            if k == "bin":
                return op(x[2]) | op(x[3])
            if k == "agg":
                for o in x[2]:
                    u |= op(o)
                return u
            if k == "tls":
                return 0
            return (1 << n) - 1
        for b in self.blocks:
            u = kl = 0
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("ref", "reborrow") and "*" not in r[2][1:]:
                        borrowed |= 1 << r[2][0]
                    if r[0] == "rawptr" and "*" not in r[1][1:]:
                        borrowed |= 1 << r[1][0]
                    u |= ops_in(r) & ~kl
                    a, k = mask_place(s[1], True)
                    u |= a & ~kl
                    kl |= k
                else:
                    for x in s[1:]:
                        if isinstance(x, list) and x and isinstance(x[0], int):
                            u |= mask_place(x, False)[0] & ~kl
            t = b["t"]
            k = t[0]
            if k == "switch":
                u |= op(t[1]) & ~kl
            elif k == "call":
                for o in t[2]:
                    u |= op(o) & ~kl
                if "ptr" in t[1]:
                    u |= op(t[1]["ptr"]) & ~kl
                a, kk = mask_place(t[3], True)
                u |= a & ~kl
                kl |= kk
            elif k == "assert":
                u |= op(t[1]) & ~kl
                for o in t[3][1:]:
                    if isinstance(o, list) and o and o[0] in ("c", "m"):
                        u |= op(o) & ~kl
            use.append(u)
            kill.append(kl)
        live = [0] * len(self.blocks)
        ch = True
        order = self.rpo[::-1]
        while ch:
            ch = False
            for b in order:
                out = 0
                for s in self.succ[b]:
                    out |= live[s]
                v = use[b] | (out & ~kill[b])
                if v != live[b]:
                    live[b] = v
                    ch = True
        self._live = [v | borrowed for v in live]

    def _loops(self):
        loops = {}
        for b in self.reach:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(p for p in self.pred[x] if p in self.reach)
        return loops

    def pdoms(self, ctx):
        """immediate post-dominators within region ctx: None = whole function, else (header, body):
        the back edge and every exit lead to the virtual end."""
        key = None if ctx is None else ctx[0]
        r = self._pd.get(key)
        if r is not None:
            return r
        END = -1
        if ctx is None:
            nodes = [b for b in self.reach if b in self.live]
            # back edges are ignored: a loop is a single step on the way to its exits
            succ = {b: [s for s in self.succ[b] if s in self.live and not self.dominates(s, b)] for b in nodes}
            for b in nodes:
                if self.blocks[b]["t"][0] == "return":
                    succ[b] = [END]
        else:
            h, body = ctx
            nodes = list(body)
            succ = {}
            for b in nodes:
                out = []
                for s in self.succ[b]:
                    if s == h or s not in body:
                        if s == h or s in self.live:
                            out.append(END)
                    elif not self.dominates(s, b):
                        out.append(s)
                succ[b] = list(dict.fromkeys(out))
        # post order on the acyclic graph
        order, seen = [], set()
        for r0 in nodes:
            if r0 in seen:
                continue
            seen.add(r0)
            st = [(r0, iter(succ.get(r0, ())))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s != END and s in succ and s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(b)
                    st.pop()
        num = {b: i + 1 for i, b in enumerate(order)}  # END = 0; successors have smaller numbers
        num[END] = 0
        ip = {END: END}
        for b in order:
            new = None
            for s in succ[b]:
                if s not in ip:
                    continue
                if new is None:
                    new = s
                else:
                    x, y = s, new
                    while x != y:
                        if num[x] > num[y]:
                            x = ip[x]
                        else:
                            y = ip[y]
                    new = x
            if new is not None:
                ip[b] = new
        self._pd[key] = ip
        return ip


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self.T = facts["types"]
        vg.Types.T = self.T
        self.tname = {t["name"]: i for i, t in enumerate(self.T)}
        self.fns = {f["id"]: f for f in facts["fns"]}
        self.bykey = {}
        for f in facts["fns"]:
            self.bykey.setdefault(f["key"], f["id"])
        self.cfg = {}
        vg.Types.u8 = self.tname.get("u8")
        self.u8 = self.tname.get("u8")
        self.usize = self.tname.get("usize")
        self.bool = self.tname.get("bool")

    def fn(self, i):
        c = self.cfg.get(i)
        if c is None:
            c = self.cfg[i] = Fn(self.fns[i])
        return c


TOTAL = {"from_utf8_lossy", "deref", "trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches", "to_string", "to_owned",
         "into_owned", "from_utf8", "is_ascii", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "starts_with", "ends_with",
         "contains", "as_str", "as_ref", "borrow", "eq", "ne", "cmp", "partial_cmp", "find", "rfind"}
IMPURE = re.compile(r"::(time|env|io|fs|net|process|thread|sync|cell|ptr|random|os|alloc::(alloc|dealloc)|any|panicking|intrinsics)::|Utc::now|Instant|SystemTime")


class Event:
    __slots__ = ("kind", "data", "pc", "fn", "line", "loops", "stack")

    def __init__(self, kind, data, pc, fn, line, loops, stack):
        self.kind, self.data, self.pc, self.fn, self.line, self.loops, self.stack = kind, data, pc, fn, line, loops, stack

    def __repr__(self):
        return f"Event({self.kind},{self.data},{self.fn}:{self.line})"


class Frame:
    __slots__ = ("fn", "cells", "fid", "depth", "rets")


def nests(uid, n, u2, m, body):
    """a loop of n rounds of m equal steps is a loop of n*m steps"""
    if n.op in ("top", "bot") or m.op in ("top", "bot") or has_op(m, ("phi", "markpos", "top")) or contains(m, IX(uid)):
        return False
    return not any(contains(x, IX(uid)) or contains(x, IX(u2)) or has_op(x, ("phi", "top", "markpos")) for x in body)


def tok_nodes(ts):
    for t in ts:
        for x in t[1:]:
            if isinstance(x, N):
                yield x
        if t[0] == "rep":
            yield from tok_nodes(t[3])
        elif t[0] == "alt":
            for _, b in t[2]:
                yield from tok_nodes(b)
            if t[3] is not None:
                yield from tok_nodes(t[3])


def nest(uid, n, per):
    """a nest of two loops whose body does not look at the indices is one loop"""
    inner = [t for t in per if t[0] != "mark"]
    if len(inner) == 1 and inner[0][0] == "rep":
        _, u2, m, body = inner[0]
        if not any(t[0] in ("other", "putseq") for t in body) and nests(uid, n, u2, m, list(tok_nodes(body))):
            ix_bounds[u2] = lmul(n, m)
            return ("rep", u2, lmul(n, m), body)
    if n.op not in ("k", "top", "bot") and rng(n)[0] >= 0 and rng(n)[1] <= 1 and all(t[0] in ("put", "rep", "alt") for t in inner) and not any(has_op(x, ("phi", "top", "markpos")) for x in tok_nodes(inner)):
        # once or not at all
        z = {IX(uid): K(0)}
        return ("alt", GE0(lsub(n, K(1))), ((0, ()),), tuple(map_tok(t, lambda x: subst(x, z)) for t in inner))
    return ("rep", uid, n, per)


_flat = {}


def scaled(l, f):
    """f >= 0 implies l >= 0 because l is a positive multiple of f plus something non-negative"""
    c, ts = lin(l)
    d, us = lin(f)
    if not ts or len(ts) != len(us) or any(t not in us for t in ts):
        return False
    t0 = next(iter(ts))
    a, b = ts[t0], us[t0]
    if a * b <= 0 or any(ts[t] * b != us[t] * a for t in ts):
        return False
    return (c * b - a * d) * (1 if b > 0 else -1) >= 0


def flat_pc(pc):
    """the path condition with conjunctions taken apart"""
    if not any(f.op in ("sw", "not", "eq") and (f.op == "sw" or f.a[0].op in ("sw", "eq", "not")) for f in pc):
        return pc
    r = _flat.get(pc)
    if r is None:
        from base import conjuncts
        out = []
        for f in pc:
            cs = conjuncts(f)
            if f not in cs:
                out.append(f)
            out.extend(cs)
        if len(_flat) > 20000:
            _flat.clear()
        r = _flat[pc] = tuple(out)
    return r


class Interp:
    def __init__(self, prog, max_depth=40):
        self.p = prog
        self.T = prog.T
        self.cellid = 0
        self.events = []
        self.unmodelled = {}
        self.stack = []
        self.loopstack = []
        self.max_depth = max_depth
        self.calls = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.loop_start = {}  # loop -> (consumed nodes, values of loop-carried leaves) before its first iteration
        self.limits = {}      # buffer -> the limited handle in use
        self.bufs = {}        # buffer cell -> dict(kind, base)
        import models
        self.models = models

    # ------------------------------------------------------------- cells
    def new_cell(self, st, v):
        self.cellid += 1
        st.cells[self.cellid] = v
        return self.cellid

    def ref_to(self, st, v, ty=None):
        return mk("ref", (self.new_cell(st, v), ()), ty)

    def new_buf(self, st, kind, base=None):
        self.cellid += 1
        c = self.cellid
        st.cells[c] = mk("buf", (c, kind))
        st.eff[c] = ()
        self.bufs[c] = dict(kind=kind, base=base)
        return c

    def event(self, kind, data, st, line=None):
        fn = self.stack[-1]["path"] if self.stack else "?"
        self.events.append(Event(kind, data, st.pc, fn, line, tuple(self.loopstack), tuple(f["path"] for f in self.stack)))

    # ------------------------------------------------------------- paths
    def project(self, st, v, p):
        k = p[0]
        if v.op in ("bot", "top"):
            return v
        if k == "f":
            return FLD(v, p[1], p[2], p[3])
        if k == "i":
            return ELEM(v, p[1])
        if k == "r":
            return SLICE(v, p[1], p[2])
        if k == "*":
            return self.deref(st, v)
        raise Undecided("projection " + k)

    def deref(self, st, v):
        if v.op == "ref":
            return self.load(st, v)
        if v.op == "sw":
            return sw_map(v, lambda x: self.deref(st, x))
        if v.op in ("bot", "top"):
            return v
        t = tinfo(v.ty)
        return mk("deref", (v,), t.get("of"))

    def load(self, st, ref):
        if ref.op == "sw":
            return sw_map(ref, lambda x: self.load(st, x))
        if ref.op != "ref":
            return self.deref(st, ref)
        v = st.cells.get(ref.a[0])
        if v is None:
            return TOP("dangling")
        for p in ref.a[1]:
            v = self.project(st, v, p)
        return v

    def store(self, st, cell, path, val):
        st.cells[cell] = self.updated(st, st.cells.get(cell, TOP("uninit")), path, val)

    def updated(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if v.op == "bot":
            return v
        if p[0] == "f":
            if v.op == "sw":
                return sw_map(v, lambda x: self.updated(st, x, path, val))
            if v.op == "agg":
                fs = list(v.a[1])
                if p[1] is not None and v.a[0] != p[1] and tinfo(v.ty).get("akind") == "enum":
                    return BOT
                while len(fs) <= p[2]:
                    fs.append(TOP("uninit-field"))
                fs[p[2]] = self.updated(st, fs[p[2]], path[1:], val)
                return AGG(v.ty, v.a[0], fs)
            tys = nfields(v.ty, p[1] or 0)
            if tys is None:
                if v.op == "top":
                    return v
                return TOP("store-into-opaque")
            if tinfo(v.ty).get("akind") == "enum" and not _single_variant(v.ty):
                return TOP("store-into-symbolic-enum")
            fs = [FLD(v, p[1], i, t) if v.op != "top" else TOP("f") for i, t in enumerate(tys)]
            fs[p[2]] = self.updated(st, fs[p[2]], path[1:], val)
            return AGG(v.ty, p[1] or 0, fs)
        if p[0] == "i":
            if v.op == "sw":
                return sw_map(v, lambda x: self.updated(st, x, path, val))
            i = p[1]
            nv = self.updated(st, ELEM(v, i), path[1:], val)
            return self.store_elem(v, i, nv)
        if p[0] == "r":
            off, n = p[1], p[2]
            sub = SLICE(v, off, n)
            nv = self.updated(st, sub, path[1:], val)
            return self.store_slice(v, off, n, nv)
        if p[0] == "*":
            inner = v
            if inner.op == "ref":
                self.store(st, inner.a[0], inner.a[1] + tuple(path[1:]), val)
                return v
            return TOP("store-through-opaque")
        return TOP("store")

    def store_elem(self, v, i, nv):
        if isk(i):
            k = i.a[0]
            if v.op == "agg" and k < len(v.a[1]):
                fs = list(v.a[1])
                fs[k] = nv
                return AGG(v.ty, v.a[0], fs)
            ln = LEN(v)
            if isk(ln) and ln.a[0] <= 512:
                xs = [ELEM(v, K(j)) for j in range(ln.a[0])]
                if k < len(xs):
                    xs[k] = nv
                    if tinfo(v.ty).get("k") == "array":
                        return AGG(v.ty, None, xs)
                    return SEQ([("1", x) for x in xs])
                return BOT
        if v.op == "top":
            return v
        return mk("store", (v, i, nv), v.ty)

    def store_slice(self, v, off, n, nv):
        ln = LEN(v)
        if isk(off) and isk(n) and isk(ln) and ln.a[0] <= 512:
            a, b = off.a[0], off.a[0] + n.a[0]
            xs = [ELEM(nv, K(j - a)) if a <= j < b else ELEM(v, K(j)) for j in range(ln.a[0])]
            if tinfo(v.ty).get("k") == "array":
                return AGG(v.ty, None, xs)
            return SEQ([("1", x) for x in xs])
        if isk(off, 0) and n is ln:
            return nv
        # v[..off] ++ nv ++ v[off+n..]
        rest = lsub(ln, ladd([off, n]))
        return SEQ([("n", SLICE(v, K(0), off)), ("n", nv), ("n", SLICE(v, ladd([off, n]), rest))])

    # ------------------------------------------------------------- places
    def place(self, fr, st, pl):
        """resolve a MIR place to (cell, path) following derefs, or a value when it is rvalue-only"""
        cell, path = fr.cells[pl[0]], ()
        variant = None
        val = None     # when not addressable
        for e in pl[1:]:
            if e == "*":
                v = self._get(st, cell, path) if val is None else val
                if v.op == "ref":
                    cell, path, val = v.a[0], v.a[1], None
                elif v.op == "sw" and val is None:
                    # reference chosen by a condition: not addressable, but readable
                    val = self.deref(st, v)
                else:
                    val = self.deref(st, v)
                continue
            k = e[0]
            if k == "d":
                variant = e[1]
                continue
            if k == "f":
                pe = ("f", variant, e[1], e[2])
                variant = None
            elif k == "i":
                pe = ("i", st.cells[fr.cells[e[1]]])
            elif k == "ci":
                base = self._get(st, cell, path) if val is None else val
                pe = ("i", lsub(LEN(base), K(e[1])) if e[3] else K(e[1]))
            elif k == "ss":
                base = self._get(st, cell, path) if val is None else val
                end = lsub(LEN(base), K(e[2])) if e[3] else K(e[2])
                pe = ("r", K(e[1]), lsub(end, K(e[1])))
            else:
                raise Undecided("place projection")
            if val is None:
                path = path + (pe,)
            else:
                val = self.project(st, val, pe)
        return cell, path, val

    def _get(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            return TOP("uninit")
        for p in path:
            v = self.project(st, v, p)
        return v

    def read_place(self, fr, st, pl):
        cell, path, val = self.place(fr, st, pl)
        return val if val is not None else self._get(st, cell, path)

    def write_place(self, fr, st, pl, v):
        if len(pl) == 1:
            st.cells[fr.cells[pl[0]]] = v
            return
        cell, path, val = self.place(fr, st, pl)
        if val is not None:
            # writing through a conditional reference
            self._write_cond(fr, st, pl, v)
            return
        self.store(st, cell, path, v)

    def _write_cond(self, fr, st, pl, v):
        self.event("opaque-write", None, st)
        self.note("write through an opaque reference")

    def note(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    # ------------------------------------------------------------- constants
    def const(self, c, st):
        ty = c.get("ty")
        v = c.get("v") or {}
        return self.constv(ty, v, st)

    def constv(self, ty, v, st):
        if "bits" in v:
            t = self.T[ty]
            if t["k"] == "float":
                return mk("float", (v["bits"],), ty)
            return K(v["bits"])
        if "str" in v:
            return self.ref_to(st, mk("bytes", (tuple(v["str"]),)), ty)
        if "bytes" in v:
            return self.ref_to(st, mk("bytes", (tuple(v["bytes"]),)), ty)
        if "slice" in v:
            return self.ref_to(st, SEQ([("1", self.constv(x["ty"], x["v"], st)) for x in v["slice"]]), ty)
        if "ref" in v:
            x = v["ref"]
            return self.ref_to(st, self.constv(x["ty"], x["v"], st), ty)
        if "fields" in v:
            t = self.T[ty]
            fs = [self.constv(x["ty"], x["v"], st) for x in v["fields"]]
            if t["k"] == "array" and t["of"] == self.p.u8:
                return AGG(ty, None, fs)
            return AGG(ty, v["variant"] if v["variant"] is not None else (0 if t["k"] == "adt" else None), fs)
        if v.get("zst"):
            t = self.T[ty]
            if t["k"] == "fndef":
                return mk("fnval", (), ty)
            if t["k"] == "tuple" and not t["elems"]:
                return UNIT
            if t["k"] == "closure":
                return AGG(ty, None, [])
            if t["k"] == "adt" and t.get("akind") == "struct":
                return AGG(ty, 0, [])
            if t["k"] == "array":
                return AGG(ty, None, [])
            return mk("zst", (), ty)
        if "fnptr" in v:
            return mk("fnptr", (v["fnptr"] if v["fnptr"] is not None else -1, v.get("def", "")), ty)
        return mk("opaqueconst", (str(sorted(v.items())),), ty)

    def operand(self, fr, st, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read_place(fr, st, o[1])
        if k == "k":
            return self.const(o[1], st)
        return FALSE   # runtime checks (ub/contract/overflow) are not part of the behaviour

    def oty(self, fr, o):
        """static type of an operand"""
        if o[0] == "k":
            return o[1]["ty"]
        if o[0] == "rc":
            return self.p.bool
        pl = o[1]
        ty = fr.fn.f["locals"][pl[0]]
        for e in pl[1:]:
            if e == "*":
                ty = tinfo(ty).get("of")
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = tinfo(ty).get("of")
            elif e[0] == "d":
                pass
        return ty

    # ------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dty, line):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "reborrow"):
            cell, path, val = self.place(fr, st, r[2])
            if val is not None:
                if val.op == "deref" and len(r[2]) >= 2:
                    return val.a[0]
                # a reborrow of a conditional reference is that reference
                if r[2][-1] == "*":
                    return self.read_place(fr, st, r[2][:-1])
                return self.ref_to(st, val, dty)
            return mk("ref", (cell, path), dty)
        if k == "rawptr":
            cell, path, val = self.place(fr, st, r[1])
            if val is not None:
                return TOP("raw pointer")
            return mk("ref", (cell, path), dty)
        if k == "cast":
            return self.cast(fr, st, r, dty)
        if k == "bin":
            return self.binop(fr, st, r, dty, line)
        if k == "un":
            a = self.operand(fr, st, r[2])
            t = tinfo(self.oty(fr, r[2]))
            if r[1] == "Not":
                if t.get("k") == "bool":
                    return NOT(a)
                if a.op in ("bot", "top"):
                    return a
                if isk(a):
                    return to_type(K(~a.a[0]), dty)
                hi = trange(dty)[1]
                if not t.get("signed"):
                    return lsub(K(hi), a)     # !x = MAX - x for unsigned x
                return lsub(K(-1), a)
            if r[1] == "Neg":
                if t.get("k") == "float":
                    return mk("fun", ("Neg", a), dty) if a.op not in ("bot", "top") else a
                return to_type(lmul(K(-1), a), dty)
            if r[1] == "PtrMetadata":
                if a.op == "ref":
                    return LEN(self.load(st, a))
                return LEN(self.deref(st, a))
            return TOP("unop")
        if k == "discr":
            return DISCR(self.read_place(fr, st, r[1]))
        if k == "agg":
            kk = r[1]
            ops = [self.operand(fr, st, o) for o in r[2]]
            if kk[0] == "tuple":
                return AGG(dty, None, ops) if ops else UNIT
            if kk[0] == "array":
                return AGG(dty, None, ops)
            if kk[0] == "adt":
                if kk[3] is not None:
                    return TOP("union")
                return AGG(kk[1], kk[2], ops)
            if kk[0] == "closure":
                return AGG(kk[1], None, ops)
            if kk[0] == "rawptr":
                return TOP("rawptr agg")
            return TOP("agg")
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if n is None:
                return TOP("repeat")
            if n <= 512:
                return AGG(dty, None, [v] * n)
            return mk("repeat", (v, K(n)), dty)
        if k == "tls":
            self.event("static", r[1], st, line)
            return TOP("thread local")
        return TOP("rvalue " + k)

    def cast(self, fr, st, r, dty):
        kind = r[1]
        a = self.operand(fr, st, r[2])
        sty = self.oty(fr, r[2])
        if kind == "PointerExposeProvenance" and a.op != "bot":
            self.event("addr", None, st)
            return TOP("address")
        if a.op in ("bot", "top"):
            return a
        if kind == "IntToInt":
            si = tinfo(sty)
            if si.get("k") == "adt":     # fieldless enum
                a = DISCR(a)
            # a narrowing cast behind a test that bounds the value keeps it
            d = tinfo(dty)
            if d.get("k") == "int" and st.pc and a.op != "k":
                lo, hi = ((-(1 << (d["bits"] - 1)), (1 << (d["bits"] - 1)) - 1) if d["signed"]
                          else (0, (1 << d["bits"]) - 1))
                x, y = rng(a)
                if ((x < lo or y > hi) and (x >= lo or self.implied(st.pc, lsub(a, K(lo))))
                        and (y <= hi or self.implied(st.pc, lsub(K(hi), a)))):
                    return a
            return to_type(a, dty)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            return mk("fcast", (kind, a, tinfo(sty).get("name")), dty)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr", "Subtype"):
            if "Unsize" in kind or kind in ("PtrToPtr", "Subtype") or "MutToConst" in kind:
                return a
            return a
        if kind == "Transmute":
            s, d = tinfo(sty), tinfo(dty)
            if s.get("k") == "float" and d.get("k") == "int":
                return to_type(TOBITS(a), dty)
            if s.get("k") == "int" and d.get("k") == "float":
                return FROMBITS(d["bits"] // 8, a, dty)
            if s.get("k") == "int" and d.get("k") == "int":
                return to_type(a, dty)
            if s.get("k") in ("ref", "ptr") and d.get("k") in ("ref", "ptr"):
                return a
            if s.get("k") == "array" and s.get("of") == self.p.u8 and d.get("k") == "int":
                return self.models.from_bytes(self, a, d["bits"] // 8, "le", d["signed"])
            return TOP("transmute")
        return TOP("cast " + kind)

    def binop(self, fr, st, r, dty, line):
        op = r[1]
        a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
        ty = self.oty(fr, r[2])
        return self.arith(op, a, b, ty, dty)

    def arith(self, op, a, b, ty, dty):
        t = tinfo(ty)
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            v = self.arith_exact(base, a, b, ty)
            lo, hi = rng(v)
            tl, th = trange(ty)
            fits = v.op in ("bot", "top") or (lo >= tl and hi <= th)
            return AGG(dty, None, [v, FALSE if fits else mk("ovf", (base, a, b), ty)])
        if a.op in ("bot", "top"):
            return a
        if b.op in ("bot", "top"):
            return b
        if t.get("k") == "float":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return mk("fcmp", (op, a, b))
            if op in ("Add", "Mul") and a.id > b.id:
                a, b = b, a
            return mk("fbin", (op, a, b), dty)
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return to_type(self.arith_exact(op.replace("Unchecked", ""), a, b, ty), ty)
        if op == "Eq":
            return self.eq(a, b, ty)
        if op == "Ne":
            return NOT(self.eq(a, b, ty))
        if op == "Lt":
            return GE0(lsub(lsub(b, a), K(1)))
        if op == "Le":
            return GE0(lsub(b, a))
        if op == "Gt":
            return GE0(lsub(lsub(a, b), K(1)))
        if op == "Ge":
            return GE0(lsub(a, b))
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            bits = t.get("bits", 64)
            op = op.replace("Unchecked", "")
            if not isk(b):
                lo, hi = rng(b)
                if lo < 0 or hi >= bits:
                    b = BIN("And", to_type(b, self.p.tname.get("u32")), K(bits - 1), self.p.tname.get("u32"))
            else:
                b = K(b.a[0] & (bits - 1))
            return BIN(op, a, b, ty)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return BIN(op[3:], a, b, ty)
        if op in ("Div", "Rem"):
            return BIN(op, a, b, ty)
        if op == "Cmp":
            lt = GE0(lsub(lsub(b, a), K(1)))
            vs = {v["name"]: i for i, v in enumerate(tinfo(dty).get("variants") or [])}
            if not vs:
                return TOP("cmp")
            g = lambda n: AGG(dty, vs[n], [])
            return ITE(lt, g("Less"), ITE(EQ(a, b), g("Equal"), g("Greater")))
        return TOP("binop " + op)

    def arith_exact(self, op, a, b, ty):
        if a.op in ("bot", "top"):
            return a
        if b.op in ("bot", "top"):
            return b
        if op == "Add":
            return ladd([a, b])
        if op == "Sub":
            return lsub(a, b)
        if op == "Mul":
            return lmul(a, b)
        return TOP("arith " + op)

    def eq(self, a, b, ty):
        t = tinfo(ty)
        if t.get("k") in ("int", "bool", "char"):
            return EQ(a, b)
        if a is b:
            return TRUE
        return mk("ptreq", (a, b))

    # ------------------------------------------------------------- path conditions
    def assume(self, st, cond, truth):
        """returns False when the assumption is contradictory"""
        if cond.op == "k":
            return bool(cond.a[0]) == truth
        if self.decide(st.pc, cond) == (not truth):
            return False
        st.pc = st.pc + ((cond if truth else NOT(cond)),)
        return True

    def decide(self, pc, cond):
        """True/False/None"""
        if cond.op == "k":
            return bool(cond.a[0])
        neg = NOT(cond)
        pc = flat_pc(pc)
        for f in pc:
            if f is cond:
                return True
            if f is neg:
                return False
        if cond.op == "ge0":
            if self.implied(pc, cond.a[0]):
                return True
            if self.implied(pc, lsub(K(-1), cond.a[0])):
                return False
        if cond.op == "eq":
            for f in pc:
                if f.op == "eq" and f.a[0] is cond.a[0] and f.a[1] != cond.a[1]:
                    return False
        return None

    def implied(self, pc, l, depth=0):
        """is l >= 0 known?"""
        if rng(l)[0] >= 0:
            return True
        pc = flat_pc(pc)
        for f in pc:
            if f.op == "ge0":
                if rng(lsub(l, f.a[0]))[0] >= 0 or scaled(l, f.a[0]):
                    return True
            elif f.op == "eq":
                t, k = f.a
                d = lsub(t, K(k))
                if rng(ladd([l, d]))[0] >= 0 or rng(lsub(l, d))[0] >= 0:
                    return True
                c, ts = lin(l)
                if t in ts:
                    m = dict(ts)
                    co = m.pop(t)
                    if rng(mklin(c + co * k, m))[0] >= 0:
                        return True
        # loop indices are below their trip count
        c, ts = lin(l)
        for t, k in ts.items():
            if t.op == "ix" and k < 0:
                n = ix_bounds.get(t.a[0])
                if n is not None:
                    m = dict(ts)
                    m.pop(t)
                    # -|k|*i >= -|k|*(n-1)
                    l2 = ladd([mklin(c, m), lmul(K(k), lsub(n, K(1)))])
                    if l2 is not l and self.implied(pc, l2):
                        return True
            if t.op == "ix" and k > 0:
                m = dict(ts)
                m.pop(t)
                l2 = mklin(c, m)
                if self.implied(pc, l2):
                    return True
        for t, k in ts.items():
            if (t.op == "min" and k < 0) or (t.op == "max" and k > 0):
                # min(a, b) <= a and <= b
                m = dict(ts)
                m.pop(t)
                for x in t.a:
                    if isinstance(x, N) and self.implied(pc, ladd([mklin(c, m), lmul(K(k), x)])):
                        return True
            if t.op == "sw" and depth < 3 and len(t.a[1]) <= 3:
                m = dict(ts)
                m.pop(t)
                rest = mklin(c, m)
                arms = [(v, x) for v, x in t.a[1]] + ([(None, t.a[2])] if t.a[2] is not None and t.a[2].op != "bot" else [])
                ok = True
                for v, x in arms:
                    if x.op == "bot":
                        continue
                    if x.op == "top":
                        ok = False
                        break
                    pc2 = pc
                    if v is not None:
                        e = EQ(t.a[0], K(v))
                        if e is FALSE:
                            continue
                        if e.op != "k":
                            pc2 = pc + (e,)
                    elif len(t.a[1]) == 1:
                        e = NOT(EQ(t.a[0], K(t.a[1][0][0])))
                        if e is FALSE:
                            continue
                        if e.op != "k":
                            pc2 = pc + (e,)
                    if not self.implied(pc2, ladd([rest, lmul(K(k), x)]), depth + 1):
                        ok = False
                        break
                if ok:
                    return True
        # two facts
        ge = [f for f in pc if f.op == "ge0"]
        if len(ge) <= 12:
            for i, f in enumerate(ge):
                r = lsub(l, f.a[0])
                for g in ge[i + 1:]:
                    if rng(lsub(r, g.a[0]))[0] >= 0:
                        return True
        return False

    # ------------------------------------------------------------- joins
    def join(self, scr, arms, base_pc):
        """arms: list of (key or None, State). Values are switched on scr."""
        if len(arms) == 1:
            s = arms[0][1]
            return s
        out = State()
        out.pc = self._common_pc([s.pc for _, s in arms])
        keys = set()
        for _, s in arms:
            keys |= s.cells.keys()
        d = None
        cases = []
        for k, s in arms:
            if k is None:
                d = s
            else:
                cases.append((k, s))
        first = arms[0][1]
        for c in keys:
            vals = [s.cells.get(c) for _, s in arms]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                if v0 is not None:
                    out.cells[c] = v0
                continue
            if any(v is None for v in vals):
                # only defined on some arms: dead after the join, or a temporary
                live = [v for v in vals if v is not None]
                if all(v is live[0] for v in live):
                    out.cells[c] = live[0]
                    continue
                vals_m = {id(s): (s.cells.get(c) or BOT) for _, s in arms}
            else:
                vals_m = {id(s): s.cells[c] for _, s in arms}
            out.cells[c] = SW(scr, tuple((k, vals_m[id(s)]) for k, s in cases), vals_m[id(d)] if d is not None else BOT)
        bufs = set()
        for _, s in arms:
            bufs |= s.eff.keys()
        for b in bufs:
            effs = [s.eff.get(b, ()) for _, s in arms]
            e0 = effs[0]
            if all(e is e0 or e == e0 for e in effs):
                out.eff[b] = e0
                continue
            n = 0
            m = min(len(e) for e in effs)
            while n < m and all(e[n] == e0[n] for e in effs):
                n += 1
            em = {id(s): s.eff.get(b, ())[n:] for _, s in arms}
            alt = ("alt", scr, tuple((k, em[id(s)]) for k, s in cases), em[id(d)] if d is not None else None)
            out.eff[b] = e0[:n] + (alt,)
        return out

    def _common_pc(self, pcs):
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        common = pcs[0][:n]
        # facts that hold on all arms
        rest = [f for f in pcs[0][n:] if all(f in p[n:] for p in pcs[1:])]
        return common + tuple(rest)

    # ------------------------------------------------------------- calls
    def call_inst(self, iid, args, st, line=None):
        f = self.p.fns[iid]
        if len(self.stack) >= self.max_depth or sum(1 for g in self.stack if g["id"] == iid) >= 3:
            self.note("recursion " + f["path"])
            return TOP("recursion"), st
        call = (iid, tuple(args), tuple(sorted((str(b), t) for b, t in st.eff.items())))
        if any(g["id"] == iid for g in self.stack):
            self.event("recur", (f["path"], call in self.calls), st)
        fr = Frame()
        fr.fn = self.p.fn(iid)
        fr.fid = iid
        fr.cells = []
        loc = f["locals"]
        base = self.cellid + 1
        for i in range(len(loc)):
            self.cellid += 1
            fr.cells.append(self.cellid)
        for i, a in enumerate(args):
            if i + 1 < len(fr.cells):
                st.cells[fr.cells[i + 1]] = a
        self.stack.append(f)
        self.calls.append(call)
        try:
            outs = self.region(fr, 0, None, st, None)
        finally:
            self.stack.pop()
            self.calls.pop()
        r = outs.get("ret")
        if r is None:
            return None, None      # diverges
        s = r[1]
        ret = s.cells.get(fr.cells[0])
        if ret is None:
            ret = UNIT
        for c in fr.cells:
            s.cells.pop(c, None)
        return ret, s

    def prune2(self, fr, st, b1, b2):
        base = fr.cells[0]
        n = len(fr.cells)
        live = fr.fn.livein(b1) | fr.fn.livein(b2)
        dead = [c for c in st.cells if base <= c < base + n and not live >> (c - base) & 1]
        for c in dead:
            del st.cells[c]

    def prune(self, fr, st, b):
        """forget locals of this frame that are dead on entry to block b"""
        base = fr.cells[0]
        n = len(fr.cells)
        live = fr.fn.livein(b)
        dead = [c for c in st.cells if base <= c < base + n and not live >> (c - base) & 1]
        for c in dead:
            del st.cells[c]

    # ------------------------------------------------------------- regions
    def region(self, fr, b, stop, st, ctx, skip_loop=None):
        """run from block b until `stop`; returns {target: (guard, state)}.
        Targets: stop, 'ret', and, inside a loop body (ctx=(header, body)), 'back' and exit blocks."""
        fn = fr.fn
        guard = TRUE
        outs = {}
        first = True
        while True:
            if b == stop and not (first and skip_loop == b):
                self.prune(fr, st, b)
                self._out(outs, stop, guard, st)
                return outs
            if ctx is not None and not first:
                if b == ctx[0]:
                    self._out(outs, "back", guard, st)
                    return outs
                if b not in ctx[1]:
                    self._out(outs, ("exit", b), guard, st)
                    return outs
            if b in fn.loops and not (first and skip_loop == b):
                r = self.loop(fr, b, st, ctx)
                first = False
                # r: {target: (guard, state)}
                nxt = self._take(outs, r, stop, ctx, guard)
                if nxt is None:
                    return outs
                b, g, st = nxt
                guard = AND(guard, g)
                continue
            first = False
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("step budget")
            blk = fn.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    dty = self.place_ty(fr, s[1])
                    v = self.rvalue(fr, st, s[2], dty, s[3])
                    self.write_place(fr, st, s[1], v)
                elif s[0] == "sd":
                    self.note("set_discriminant")
                    self.write_place(fr, st, s[1], TOP("set discriminant"))
            t = blk["t"]
            k = t[0]
            if k == "goto":
                b = t[1]
            elif k == "drop":
                b = t[2]
            elif k == "return":
                self._out(outs, "ret", guard, st)
                return outs
            elif k == "assert":
                if not self.do_assert(fr, st, t):
                    return outs
                b = t[4]
            elif k == "call":
                v, s2 = self.do_call(fr, st, t)
                if s2 is None or t[4] is None:
                    return outs
                st = s2
                self.write_place(fr, st, t[3], v)
                b = t[4]
            elif k == "switch":
                r = self.switch(fr, b, t, st, stop, ctx)
                nxt = self._take(outs, r, stop, ctx, guard)
                if nxt is None:
                    return outs
                b, g, st = nxt
                guard = AND(guard, g)
            else:
                return outs     # unreachable / resume

    def _take(self, outs, r, stop, ctx, guard):
        """merge finished outcomes of r into outs; return the outcome to continue with, if any"""
        cont = None
        for tgt, (g, s) in r.items():
            if isinstance(tgt, tuple) and tgt[0] == "at":
                cont = (tgt[1], g, s)
            else:
                self._out(outs, tgt, AND(guard, g), s)
        return cont

    def _out(self, outs, tgt, guard, st):
        if tgt in outs:
            g0, s0 = outs[tgt]
            s = self.join(g0, [(1, s0), (None, st)], ()) if g0.op != "k" else s0
            outs[tgt] = (OR(g0, guard), s)
        else:
            outs[tgt] = (guard, st)

    def place_ty(self, fr, pl):
        ty = fr.fn.f["locals"][pl[0]]
        for e in pl[1:]:
            if e == "*":
                ty = tinfo(ty).get("of")
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = tinfo(ty).get("of")
        return ty

    def do_assert(self, fr, st, t):
        cond = self.operand(fr, st, t[1])
        exp = t[2]
        m = t[3]
        line = t[5]
        kind = m[0]
        if kind == "overflow":
            a, b = self.operand(fr, st, m[2]), self.operand(fr, st, m[3])
            ty = self.oty(fr, m[2])
            op = m[1]
            if a.op == "bot" or b.op == "bot":
                return False
            goals = []
            if op in ("Shl", "Shr"):
                bits = tinfo(ty).get("bits", 64)
                goals = [b, lsub(K(bits - 1), b)]
            else:
                v = self.arith_exact(op, a, b, ty)
                lo, hi = trange(ty)
                if v.op == "top" or lo == -INF:
                    self.event("overflow?", (op, a, b, ty), st, line)
                    return True
                goals = [lsub(v, K(lo)), lsub(K(hi), v)]
            for g in goals:
                if not self.implied(st.pc, g):
                    self.event("overflow", (op, a, b, ty, g), st, line)
                    break
            for g in goals:
                # past the check the result is in range
                c = GE0(g)
                if c.op != "k":
                    st.pc = st.pc + (c,)
                elif c is FALSE:
                    return False
            return True
        if kind == "bounds":
            ln, ix = self.operand(fr, st, m[1]), self.operand(fr, st, m[2])
            g = lsub(lsub(ln, ix), K(1))
            return self.need(st, g, ("bounds", ix, ln), line)
        if kind in ("div0", "rem0"):
            a = self.operand(fr, st, m[1])
            # m carries the dividend; the condition tells about the divisor
            if cond.op == "k":
                if bool(cond.a[0]) != exp:
                    self.event("div0", (a, FALSE), st, line)
                    return False
                return True
            if self.decide(st.pc, cond) == exp:
                return True
            self.event("div0", (a, cond if exp else NOT(cond)), st, line)
            return self.assume(st, cond, exp)
        if kind == "overflow_neg":
            a = self.operand(fr, st, m[1])
            lo, _ = trange(self.oty(fr, m[1]))
            if lo == -INF or a.op == "top":
                return a.op != "bot"
            return self.need(st, lsub(a, K(lo + 1)), ("overflow", "Neg", a, a, None), line)
        if kind in ("misaligned",):
            return True
        return True

    def need(self, st, g, what, line):
        """obligation g >= 0; afterwards it is assumed"""
        if g.op == "bot":
            return False
        if g.op == "top":
            self.event(what[0] + "?", what[1:], st, line)
            return True
        c = GE0(g)
        if c is TRUE:
            return True
        if not self.implied(st.pc, g):
            self.event(what[0], what[1:] + (g,), st, line)
        if c is FALSE:
            return False
        st.pc = st.pc + (c,)
        return True

    # ------------------------------------------------------------- switch
    def switch(self, fr, b, t, st, stop, ctx):
        fn = fr.fn
        scr = self.operand(fr, st, t[1])
        ip = fn.pdoms(ctx).get(b)
        targets = t[3]
        other = t[4]
        if scr.op == "top":
            # the branch is unknown: analyse both sides, values joined on an opaque condition
            scr = mk("unk", (scr.id,), t[2])
        if scr.op == "bot":
            return {}
        if scr.op == "k":
            for v, x in targets:
                if v == scr.a[0]:
                    return {("at", x): (TRUE, st)}
            return {("at", other): (TRUE, st)}
        # group by target block
        arms = []      # (key or None, target block, cond list)
        istbool = tinfo(t[2]).get("k") == "bool"
        if scr.op == "sw" and vg._leafk(scr):
            pass
        used = set()
        for v, x in targets:
            c = EQ(scr, K(v))
            dec = self.decide(st.pc, c)
            if dec is False:
                used.add(v)
                continue
            if dec is True:
                return {("at", x): (TRUE, st)}
            arms.append((v, x, c))
            used.add(v)
        # is the otherwise arm feasible?
        feasible = self._otherwise_feasible(st, scr, [v for v, _ in targets])
        if feasible and self.is_unreachable(fn, other):
            feasible = False
        if not arms:
            return {("at", other): (TRUE, st)}
        if len(arms) == 1 and not feasible:
            self.assume(st, arms[0][2], True)
            return {("at", arms[0][1]): (TRUE, st)}
        # chain flattening: if x==k1 {..} else if x==k2 {..} …
        stop2 = ip if ip not in (None, -1) else None
        chain = []      # (key, outs)
        key_scr = None
        if len(arms) + (1 if feasible else 0) == 2 and istbool:
            # express as: cond true / false
            m = {v: x for v, x, _ in arms}
            tb = m.get(1, other)
            fb = m.get(0, other)
            cond = scr
            key_scr, chain, default = self._chain(fr, cond, tb, fb, st, stop2, ctx, b, ip)
            return self._join_outs(key_scr, chain, default, stop2, ctx)
        outs = []
        for v, x, c in arms:
            s = st.copy()
            if not self.assume(s, c, True):
                continue
            outs.append((v, self._arm(fr, x, stop2, s, ctx)))
        d = None
        if feasible:
            s = st.copy()
            ok = True
            for v, x, c in arms:
                ok = ok and self.assume(s, c, False)
            if ok:
                d = self._arm(fr, other, stop2, s, ctx)
        return self._join_outs(scr, outs, d, stop2, ctx)

    def is_unreachable(self, fn, b):
        blk = fn.blocks[b]
        return blk["t"][0] == "unreachable" and not blk["s"]

    def _otherwise_feasible(self, st, scr, vals):
        lo, hi = rng(scr)
        if hi - lo < 1 << 17:
            vs = set(vals)
            if scr.op == "discr":
                tv = tinfo(scr.a[0].ty).get("variants")
                if tv:
                    return any(w["discr"] not in vs and self.decide(st.pc, EQ(scr, K(w["discr"]))) is not False for w in tv)
            if hi - lo + 1 <= len(vs):
                return any(x not in vs and self.decide(st.pc, EQ(scr, K(x))) is not False for x in range(int(lo), int(hi) + 1))
        return True

    def _arm(self, fr, x, stop, s, ctx):
        self.prune(fr, s, x)
        return self.region(fr, x, stop, s, ctx, None) if not self._imm(x, stop, ctx) else self._immout(x, stop, s, ctx)

    def _imm(self, x, stop, ctx):
        return x == stop or (ctx is not None and (x == ctx[0] or x not in ctx[1]))

    def _immout(self, x, stop, s, ctx):
        if x == stop:
            return {stop: (TRUE, s)}
        if x == ctx[0]:
            return {"back": (TRUE, s)}
        return {("exit", x): (TRUE, s)}

    def _chain(self, fr, cond, tb, fb, st, stop, ctx, b, ip):
        """cond ? tb : fb, flattening else-if chains over one scrutinee"""
        fn = fr.fn
        if cond.op != "eq":
            outs = []
            s = st.copy()
            d = None
            if self.assume(s, cond, True):
                outs.append((1, self._arm(fr, tb, stop, s, ctx)))
            s = st
            if self.assume(s, cond, False):
                d = self._arm(fr, fb, stop, s, ctx)
            return cond, outs, d
        scr = cond.a[0]
        outs = []
        rip = fn.resolve(ip)
        cur_b, cur_s, cur_c, cur_t = fb, st, cond, tb
        while True:
            s = cur_s.copy()
            if self.assume(s, cur_c, True):
                outs.append((cur_c.a[1], self._arm(fr, cur_t, stop, s, ctx)))
            s = cur_s
            if len(outs) < 64:
                if not self.assume(s, cur_c, False):
                    return scr, outs, None
            # walk to the next switch
            x = cur_b
            if self._imm(x, stop, ctx):
                return scr, outs, self._arm(fr, x, stop, s, ctx)
            go = True
            while go:
                blk = fn.blocks[x]
                t = blk["t"]
                if x in fn.loops or self._imm(x, stop, ctx):
                    break
                if t[0] == "switch" and fn.resolve(fn.pdoms(ctx).get(x)) == rip and tinfo(t[2]).get("k") == "bool" and len(t[3]) == 1 and not any(q[0] != "=" for q in blk["s"]) and len(blk["s"]) <= 8 and self._pure_stmts(blk):
                    s_try = s.copy()
                    for q in blk["s"]:
                        self.write_place(fr, s_try, q[1], self.rvalue(fr, s_try, q[2], self.place_ty(fr, q[1]), q[3]))
                    c2 = self.operand(fr, s_try, t[1])
                    if c2.op == "eq" and c2.a[0] is scr:
                        m = {v: y for v, y in t[3]}
                        cur_t, cur_b = m.get(1, t[4]), m.get(0, t[4])
                        self.prune2(fr, s_try, cur_t, cur_b)
                        cur_s, cur_c = s_try, c2
                        break
                    if c2 is FALSE and 0 in dict(t[3]):
                        s, x = s_try, dict(t[3])[0]
                        continue
                    go = False
                    break
                if t[0] == "goto" and not blk["s"]:
                    x = t[1]
                    continue
                if t[0] == "assert" and self._pure_stmts(blk):
                    s_try = s.copy()
                    for q in blk["s"]:
                        self.write_place(fr, s_try, q[1], self.rvalue(fr, s_try, q[2], self.place_ty(fr, q[1]), q[3]))
                    c2 = self.operand(fr, s_try, t[1])
                    if c2.op == "k" and bool(c2.a[0]) == t[2]:
                        s, x = s_try, t[4]
                        continue
                go = False
            else:
                go = False
            if not go:
                return scr, outs, self._arm(fr, x, stop, s, ctx)
            if x in fn.loops or self._imm(x, stop, ctx):
                return scr, outs, self._arm(fr, x, stop, s, ctx)

    def _pure_stmts(self, blk):
        return all(q[0] == "=" and len(q[1]) == 1 for q in blk["s"])

    def _join_outs(self, scr, arms, d, stop, ctx):
        """arms: [(key, outs)], d: outs of the default. Result: outcomes keyed; `stop` becomes ('at', stop)."""
        tgts = {}
        for k, outs in arms:
            for tg, (g, s) in outs.items():
                tgts.setdefault(tg, []).append((k, g, s))
        if d is not None:
            for tg, (g, s) in d.items():
                tgts.setdefault(tg, []).append((None, g, s))
        allkeys = [k for k, _ in arms]
        res = {}
        for tg, lst in tgts.items():
            gm = {k: g for k, g, _ in lst}
            gd = gm.pop(None, FALSE)
            guard = SW(scr, tuple((k, gm.get(k, FALSE)) for k in allkeys), gd)
            st = self.join(scr, [(k, s) for k, _, s in lst], ())
            key = ("at", tg) if tg == stop and stop is not None else tg
            res[key] = (guard, st)
        return res

    # ------------------------------------------------------------- loops
    def loop(self, fr, h, st, ctx):
        """returns outcomes {('at', exit): ...} (exits) plus 'ret'"""
        fn = fr.fn
        body = fn.loops[h]
        lctx = (h, body)
        # 1. try to run it concretely while every exit decision is constant
        r = self._concrete_loop(fr, h, lctx, st)
        if r is not None:
            return self._reexit(fr, r, ctx)
        return self._reexit(fr, self._abstract_loop(fr, h, lctx, st), ctx)

    def _reexit(self, fr, r, ctx):
        res = {k: v for k, v in r.items() if not (isinstance(k, tuple) and k[0] == "exit")}
        exits = [(k[1], v) for k, v in r.items() if isinstance(k, tuple) and k[0] == "exit"]
        if len(exits) == 1:
            res[("at", exits[0][0])] = exits[0][1]
            return res
        if not exits:
            return res
        # several exit blocks: follow each to the point where they meet again
        pd = fr.fn.pdoms(ctx)

        def ups(b):
            out = [b]
            while out[-1] in pd and pd[out[-1]] not in (None, -1) and len(out) < 10000:
                out.append(pd[out[-1]])
            return out
        chains = [ups(b) for b, _ in exits]
        stop = next((b for b in chains[0] if all(b in c for c in chains[1:])), None)
        if len(res) or len(exits) > 4:
            raise Undecided("loop with several exits")
        cur = None
        for b, (g, s) in reversed(exits):
            s = s.copy()
            if cur is not None and not self.assume(s, g, True):
                continue
            o = self._arm(fr, b, stop, s, ctx)
            cur = o if cur is None else {(k[1] if k == ("at", stop) else k): v for k, v in self._join_outs(g, [(1, o)], cur, stop, ctx).items()}
        return {(("at", k) if k == stop and stop is not None else k): v for k, v in cur.items()}

    def _concrete_loop(self, fr, h, lctx, st):
        cur = st.copy()
        nev = len(self.events)
        for it in range(600):
            outs = self.region(fr, h, None, cur.copy() if it == 0 else cur, lctx, skip_loop=h)
            if "back" in outs and len(outs) == 1 and outs["back"][0] is TRUE:
                cur = outs["back"][1]
                continue
            if "back" not in outs:
                return outs
            break
        del self.events[nev:]
        return None

    def _abstract_loop(self, fr, h, lctx, st):
        uid = fresh()
        ix = IX(uid)
        nev = len(self.events)
        phis = {}      # leaf key (cell, path) -> True
        pre = st
        prev_shape = None
        for attempt in range(8):
            del self.events[nev:]
            s = pre.copy()
            for c in list(s.cells):
                s.cells[c] = self._phi(s.cells[c], phis, uid, (c,))
            for b in list(s.eff):
                s.eff[b] = (("mark", uid),)
            start_cells = dict(s.cells)
            self.loopstack.append(uid)
            try:
                outs = self.region(fr, h, None, s, lctx, skip_loop=h)
            finally:
                self.loopstack.pop()
            if "back" not in outs:
                return self._finish_once(outs, pre, uid)
            back = outs["back"][1]
            new = {}
            for c, v0 in start_cells.items():
                v1 = back.cells.get(c)
                if v1 is not None and v1 is not v0:
                    self._diff(v0, v1, (c,), new)
            added = {k for k in new if k not in phis}
            if not added:
                break
            for k in added:
                phis[k] = True
        else:
            raise Undecided("loop does not stabilise")
        # 2. classify the loop-carried leaves
        init, nxt = {}, {}
        self._note_start(uid, pre, phis)
        for key in phis:
            init[key] = self._leaf(pre.cells[key[0]], key[1:], pre)
            nxt[key] = self._leaf(back.cells[key[0]], key[1:], back)
        phi_nodes = {key: mk("phi", (uid, key)) for key in phis}
        ind = {}
        for key in phis:
            d = lsub(nxt[key], phi_nodes[key]) if nxt[key].op not in ("seq", "agg", "store") else None
            if d is not None and d.op == "k":
                ind[key] = d.a[0]
        # 3. run again with induction variables in closed form
        del self.events[nev:]
        s = pre.copy()
        for c in list(s.cells):
            s.cells[c] = self._phi(s.cells[c], phis, uid, (c,), {key: ladd([init[key], lmul(K(ind[key]), ix)]) for key in ind})
        for b in list(s.eff):
            s.eff[b] = (("mark", uid),)
        self.loopstack.append(uid)
        ev1 = len(self.events)
        try:
            outs = self.region(fr, h, None, s, lctx, skip_loop=h)
        finally:
            self.loopstack.pop()
        if "back" not in outs:
            return self._finish_once(outs, pre, uid)
        bguard, back = outs["back"]
        pm = self._positions(uid, pre, back)
        for key in phis:        # the length of a list that grows by a constant number of elements each time
            v0 = init[key]
            if nxt[key].op == "seq" and elem_ty(v0) is not None or nxt[key].op == "seq" and v0.op == "seq":
                g0 = lsub(LEN(nxt[key]), LEN(phi_nodes[key]))
                if g0.op == "k":
                    pm = dict(pm or {})
                    pm[LEN(phi_nodes[key])] = ladd([LEN(v0), lmul(g0, ix)])
        stages = self._trip(subst(bguard, pm) if pm else bguard, uid)
        eg = self._exit_guards(outs, stages, pm) if stages else None
        n = None
        if eg is not None:
            n = stages[0][1]
            for _, m in stages[1:]:
                n = MINMAX("min", n, m)
        ix_bounds[uid] = n if n is not None else None
        ix.rng_ = None
        self._note_loop(uid, n, pre, back, outs, bguard, [(phi_nodes[k], init[k], self._leaf(back.cells[k[0]], k[1:], back)) for k in phis], any(ind.values()))
        # events raised inside are filtered with the index bound
        if n is not None:
            self._settle(ev1, uid, n, pre, back, {phi_nodes[k]: (init[k], self._leaf(back.cells[k[0]], k[1:], back)) for k in phis})
        # 4. closed forms after the loop
        final = {}
        for key in phis:
            ph, v0 = phi_nodes[key], init[key]
            if n is None:
                final[key] = TOP("loop-carried value")
                continue
            if key in ind:
                final[key] = ladd([v0, lmul(K(ind[key]), n)])
                continue
            v1 = self._leaf(back.cells[key[0]], key[1:], back)
            final[key] = self._closed(ph, v0, v1, uid, n)
        fm = {phi_nodes[k]: v for k, v in final.items()}
        fm_ind = dict(fm)
        if n is not None:
            fm_ind[ix] = n
        res = {}
        for tg, (g, es) in outs.items():
            if tg == "back":
                continue
            o = State()
            o.pc = pre.pc
            memo = {}
            for c, v in es.cells.items():
                o.cells[c] = subst(v, fm_ind, memo) if n is not None else (v if v is pre.cells.get(c) else self._topify(v, pre.cells.get(c), uid))
            for b, toks in es.eff.items():
                pre_t = pre.eff.get(b, ())
                bt = back.eff.get(b, (("mark", uid),))
                if bt and bt[0] == ("mark", uid):
                    per = bt[1:]
                else:
                    per = (("other", "loop-rewrites-buffer"),) + tuple(bt)
                tail = toks[1:] if toks and toks[0] == ("mark", uid) else (("other", "loop-rewrites-buffer"),)
                if n is not None and tail:
                    tail = self._subst_toks(tail, fm_ind)
                if per:
                    cnt = n if n is not None else TOP("trip count")
                    out = pre_t + (nest(uid, cnt, per),) + tuple(tail)
                else:
                    out = pre_t + tuple(tail)
                o.eff[b] = out
            if eg is None and len(outs) > 2:
                raise Undecided("loop with several exits")
            res[tg] = (eg[tg] if eg is not None else TRUE, o)
        return res

    def _settle(self, ev1, uid, n, pre, back, acc=None):
        """obligations raised inside a loop whose trip count is now known: the read position at the start
        of iteration i is the position before the loop plus i times the (constant) size of one iteration"""
        m = self._positions(uid, pre, back)
        for ph, (v0, v1) in (acc or {}).items():        # an accumulator's value before round i
            if v1.op != "lin" or v0.op in ("top", "bot"):
                continue
            d = lsub(v1, ph)
            if not contains(d, ph) and not has_op(d, ("phi", "top", "get", "getseq")):
                u = fresh()
                ix_bounds[u] = IX(uid)
                m = dict(m or {})
                m[ph] = ladd([v0, SUM(u, IX(uid), subst(d, {IX(uid): IX(u)}))])
        self._note_start(uid, pre, (), back)
        kept = self.events[:ev1]
        for e in self.events[ev1:]:
            if e.kind in ("overflow", "bounds", "underflow", "slice"):
                g = e.data[-1]
                pc = e.pc
                if m:
                    memo = {}
                    g = subst(g, m, memo)
                    pc = tuple(subst(c, m, memo) for c in pc)
                    e.data = tuple(e.data[:-1]) + (g,)
                    e.pc = pc
                if self.implied(pc, g):
                    continue
            kept.append(e)
        self.events[:] = kept

    def _note_loop(self, uid, n, pre, back, outs, guard, carried, moves):
        """an event that tells how often a loop runs, what each round reads, and what it changes"""
        per, whole = [], True
        for b in pre.eff:
            if self.bufs.get(b, {}).get("kind") not in ("r", "cursor"):
                continue
            bt = tuple(back.eff.get(b, (("mark", uid),)))
            if bt and bt[0] == ("mark", uid):
                if len(bt) > 1:
                    per.append(tok_size(bt[1:], True))
            else:
                whole = False
        writes = any(self.bufs.get(b, {}).get("kind") not in ("r", "cursor") and tuple(back.eff.get(b, (("mark", uid),))) != (("mark", uid),) for b in pre.eff)
        self.event("loop", (uid, n, ladd(per) if per else K(0), whole, guard, tuple(carried), moves, len(outs) > 1, writes), pre)

    def _readers(self, pre, back, uid):
        """the input buffers a loop reads from"""
        rd = [b for b in pre.eff if self.bufs.get(b, {}).get("kind") in ("r", "cursor")]
        if len(rd) > 1 and back is not None:
            used = [b for b in rd if tuple(back.eff.get(b, (("mark", uid),))) != (("mark", uid),)]
            if len(used) == 1:
                return used
        return rd

    def _note_start(self, uid, pre, phis, back=None):
        rd = self._readers(pre, back, uid)
        m = self.loop_start.setdefault(uid, {})
        m[IX(uid)] = K(0)
        if len(rd) == 1:
            m[mk("markpos", (uid,))] = tok_size(pre.eff.get(rd[0], ()), True)
        for key in phis:
            try:
                m[mk("phi", (uid, key))] = self._leaf(pre.cells[key[0]], key[1:], pre)
            except Undecided:
                pass

    def _positions(self, uid, pre, back):
        """read position at the start of iteration i when every iteration reads the same number of octets"""
        ix = IX(uid)
        m = {}
        rd = self._readers(pre, back, uid)
        if len(rd) == 1:
            b = rd[0]
            bt = back.eff.get(b, ())
            if bt and bt[0] == ("mark", uid):
                per = tok_size(bt[1:], True)
                if per.op == "k":
                    m[mk("markpos", (uid,))] = ladd([tok_size(pre.eff.get(b, ()), True), lmul(per, ix)])
        return m

    def _topify(self, v, old, uid):
        if has_op(v, ("phi",)) or contains(v, IX(uid)):
            return TOP("loop")
        return v

    def _finish_once(self, outs, pre, uid):
        """the body never comes back: it runs at most once"""
        res = {}
        for tg, (g, s) in outs.items():
            s2 = s
            for b, toks in list(s2.eff.items()):
                if toks and toks[0] == ("mark", uid):
                    s2.eff[b] = pre.eff.get(b, ()) + tuple(toks[1:])
            res[tg] = (g, s2)
        return res

    def _phi(self, v, phis, uid, key, closed=None):
        if closed is not None and key in closed:
            return closed[key]
        if key in phis:
            return mk("phi", (uid, key), v.ty)
        if v.op in ("agg",) and any(k[:len(key)] == key for k in phis):
            return mk("agg", (v.a[0], tuple(self._phi(x, phis, uid, key + (i,), closed) for i, x in enumerate(v.a[1]))), v.ty)
        if v.op == "it" and any(k[:len(key)] == key for k in phis):
            return mk("it", tuple(self._phi(x, phis, uid, key + (i,), closed) if isinstance(x, N) else x for i, x in enumerate(v.a)), v.ty)
        if any(len(k) > len(key) and k[:len(key)] == key for k in phis):
            # structure changed under us
            return mk("phi", (uid, key), v.ty)
        return v

    def _diff(self, a, b, key, out):
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.ty == b.ty and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and a.a[1] and tinfo(a.ty).get("k") != "array":
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                self._diff(x, y, key + (i,), out)
            return
        if a.op == "it" and b.op == "it" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if isinstance(x, N):
                    self._diff(x, y, key + (i,), out)
            return
        out[key] = True

    def _leaf(self, v, path, st):
        for i in path:
            if v.op == "agg":
                v = v.a[1][i]
            elif v.op == "it":
                v = v.a[i]
            else:
                return TOP("leaf")
        return v

    def _trip(self, bguard, uid):
        """trip count from the condition under which the loop is continued: [(condition, rounds for which it holds)], None if unknown"""
        out = []
        for c in conj(bguard):
            n = self._trip1(c, uid)
            if n is None:
                return None
            out.append((c, n))
        return out or None

    def _exit_guards(self, outs, stages, pm):
        """the condition under which each exit is the one taken, when the loop ends at the first stage that fails; None if unknown"""
        exits = [k for k in outs if k != "back"]
        if len(exits) == 1:
            return {exits[0]: TRUE}
        res = {k: FALSE for k in exits}
        for j, (c, n) in enumerate(stages):
            f = TRUE
            for k, (_, m) in enumerate(stages):
                if k != j:
                    f = AND(f, GE0(ladd([m, lmul(K(-1), n), K(-1 if k < j else 0)])))
            hit = []
            for x in exits:
                g = outs[x][0]
                g = subst(g, pm) if pm else g
                m = {}
                for cc, v in [(d, True) for d, _ in stages[:j]] + [(c, False)]:
                    known(cc, v, m)
                g = subst(g, m)
                if g is TRUE:
                    hit.append(x)
                elif g is not FALSE:
                    return None
            if len(hit) != 1:
                return None
            res[hit[0]] = OR(res[hit[0]], f)
        return res

    def _trip1(self, g, uid):
        ix = IX(uid)
        if g.op == "ge0":
            l = g.a[0]                     # continue while l(i) >= 0
            c, ts = lin(l)
            k = ts.get(ix)
            if k is None or k >= 0 or any(contains(t, ix) for t in ts if t is not ix):
                return None
            if _own_phi(l, uid):
                return None
            m = dict(ts)
            m.pop(ix)
            d0 = ladd([mklin(c, m), K(1)])   # first i with l<0: ceil(d0/|k|)
            s = -k
            if s == 1:
                n = d0
            elif d0.op == "k":
                n = K(-(-d0.a[0] // s))
            else:
                n = BIN("Div", ladd([d0, K(s - 1)]), K(s), None)
            lo, hi = rng(n)
            if hi <= 0:
                return K(0)
            if lo < 0:
                n = MINMAX("max", n, K(0))
            return n
        d = None
        if g.op == "not" and g.a[0].op == "eq":
            t, v = g.a[0].a
            d = lsub(t, K(v))               # continue while d != 0
        elif g.op == "sw" and len(g.a[1]) == 1 and g.a[1][0][1] is FALSE and g.a[2] is TRUE:
            d = lsub(g.a[0], K(g.a[1][0][0]))
        if d is not None:
            c, ts = lin(d)
            k = ts.get(ix)
            if k not in (1, -1) or any(contains(x, ix) for x in ts if x is not ix):
                return None
            m = dict(ts)
            m.pop(ix)
            r = mklin(c, m)
            r = r if k == -1 else lmul(K(-1), r)
            left = any(t.op == "rem" and k > 0 for t, k in lin(r)[1].items())       # what is left of the input is never negative
            return r if (rng(r)[0] >= 0 or left) and not _own_phi(r, uid) else None
        return None

    def _closed(self, ph, v0, v1, uid, n):
        ix = IX(uid)
        if v1 is ph:
            return v0
        if v1.op in ("lin",):
            d = lsub(v1, ph)
            if not contains(d, ph) and not has_op(d, ("phi",)):
                return ladd([v0, SUM(uid, n, d)])
            return TOP("accumulator")
        if v1.op == "seq" and v1.a and v1.a[0] == ("n", ph):
            rest = v1.a[1:]
            if all(not contains(p[1], ph) and not has_op(p[1], ("phi",)) for p in rest):
                if len(rest) == 1 and rest[0][0] == "1":
                    return SEQ([("n", v0), ("n", MAP(uid, n, rest[0][1]))])
                if len(rest) == 1 and rest[0][1].op == "map" and nests(uid, n, rest[0][1].a[0], rest[0][1].a[1], [rest[0][1].a[2]]):
                    i = rest[0][1]
                    return SEQ([("n", v0), ("n", MAP(i.a[0], lmul(n, i.a[1]), i.a[2]))])
                return SEQ([("n", v0), ("n", mk("flat", (uid, n, SEQ(rest))))])
            return TOP("sequence accumulator")
        if v1.op == "store" and v1.a[0] is ph and v1.a[1] is ix and not contains(v1.a[2], ph):
            ln = LEN(v0)
            if ln is n:
                return MAP(uid, n, v1.a[2])
            return SEQ([("n", MAP(uid, n, v1.a[2])), ("n", SLICE(v0, n, lsub(ln, n)))])
        return TOP("loop-carried value")

    def _subst_toks(self, toks, m):
        return tuple(map_tok(t, lambda x: subst(x, m)) for t in toks)

    # a loop given by an iterator protocol inside a combinator
    def virtual_loop(self, st, n, step, what):
        """step(state, ix) -> (value, state) once per iteration; returns (uid, n, value_of_iteration, state).
        Constant trip counts are unrolled by the caller."""
        uid = fresh()
        ix = IX(uid)
        ix_bounds[uid] = n
        nev = len(self.events)
        phis = {}
        pre = st
        for attempt in range(6):
            del self.events[nev:]
            s = pre.copy()
            for c in list(s.cells):
                s.cells[c] = self._phi(s.cells[c], phis, uid, (c,))
            for b in list(s.eff):
                s.eff[b] = (("mark", uid),)
            start = dict(s.cells)
            self.loopstack.append(uid)
            try:
                v, back = step(s, ix)
            finally:
                self.loopstack.pop()
            if back is None:
                return None
            new = {}
            for c, v0 in start.items():
                v1 = back.cells.get(c)
                if v1 is not None and v1 is not v0:
                    self._diff(v0, v1, (c,), new)
            added = {k for k in new if k not in phis}
            if not added:
                break
            for k in added:
                phis[k] = True
        else:
            raise Undecided("iterator loop does not stabilise")
        init, nxt, ind = {}, {}, {}
        self._note_start(uid, pre, phis)
        for key in phis:
            init[key] = self._leaf(pre.cells[key[0]], key[1:], pre)
            nxt[key] = self._leaf(back.cells[key[0]], key[1:], back)
            d = lsub(nxt[key], mk("phi", (uid, key))) if nxt[key].op not in ("seq", "agg", "store") else None
            if d is not None and d.op == "k":
                ind[key] = d.a[0]
        if ind:
            del self.events[nev:]
            s = pre.copy()
            for c in list(s.cells):
                s.cells[c] = self._phi(s.cells[c], phis, uid, (c,), {k: ladd([init[k], lmul(K(ind[k]), ix)]) for k in ind})
            for b in list(s.eff):
                s.eff[b] = (("mark", uid),)
            self.loopstack.append(uid)
            try:
                v, back = step(s, ix)
            finally:
                self.loopstack.pop()
        self._settle(nev, uid, n, pre, back)
        self._note_loop(uid, n, pre, back, (1, 2), TRUE, (), True)
        o = State(dict(back.cells), {}, pre.pc)
        fm = {}
        finals = {}
        for key in phis:
            ph = mk("phi", (uid, key))
            if key in ind:
                finals[key] = ladd([init[key], lmul(K(ind[key]), n)])
            else:
                finals[key] = self._closed(mk("phi", (uid, key), pre_ty(self._leaf(pre.cells[key[0]], key[1:], pre))), init[key], self._leaf(back.cells[key[0]], key[1:], back), uid, n)
        for c in list(o.cells):
            if c in pre.cells:
                o.cells[c] = self._refill(pre.cells[c], finals, (c,), o.cells[c])
        for b, toks in back.eff.items():
            pre_t = pre.eff.get(b, ())
            if toks and toks[0] == ("mark", uid):
                per = toks[1:]
            else:
                per = (("other", "loop-rewrites-buffer"),)
            o.eff[b] = pre_t + ((nest(uid, n, tuple(per)),) if per else ())
        return uid, v, o

    def _refill(self, v, finals, key, cur):
        if key in finals:
            return finals[key]
        if v.op == "agg" and any(k[:len(key)] == key for k in finals):
            return mk("agg", (v.a[0], tuple(self._refill(x, finals, key + (i,), x) for i, x in enumerate(v.a[1]))), v.ty)
        if v.op == "it" and any(k[:len(key)] == key for k in finals):
            return mk("it", tuple(self._refill(x, finals, key + (i,), x) if isinstance(x, N) else x for i, x in enumerate(v.a)), v.ty)
        return v if not any(k[0] == key[0] for k in finals) else v

    # ------------------------------------------------------------- calls
    def do_call(self, fr, st, t):
        fnref, args, line = t[1], t[2], t[5]
        argv = [self.operand(fr, st, a) for a in args]
        argt = [self.oty(fr, a) for a in args]
        dty = self.place_ty(fr, t[3])
        if any(a.op == "bot" for a in argv):
            return None, None
        if "ptr" in fnref:
            f = self.operand(fr, st, fnref["ptr"])
            return self.call_value(f, argv, argt, st, dty, line)
        return self.call_ref(fnref, argv, argt, st, dty, line)

    def call_ref(self, c, argv, argt, st, dty, line):
        r = self.models.dispatch(self, c, argv, argt, st, dty, line)
        if r is not None:
            return r
        if c.get("ctor"):
            # tuple struct / variant constructor used as a function
            i = tinfo(dty)
            vname = c["def"].split("::")[-1]
            vi = 0
            for j, v in enumerate(i.get("variants") or []):
                if v["name"] == vname:
                    vi = j
            return AGG(dty, vi, argv), st
        iid = c.get("inst")
        if iid is not None and iid in self.p.fns:
            return self.call_inst(iid, argv, st, line)
        if self.pure_extern(c, argv, argt):
            # a deterministic library function of values: equal arguments give equal results
            name = c["def"].split("::")[-1]
            if name not in TOTAL:
                self.note("call " + c["def"])
            xs = [self.models.strip_refs(self, st, a) for a in argv]
            for x in xs:
                if x.op in ("top", "bot"):
                    return x, st
            return mk("fun", ("lib:" + c["def"],) + tuple(xs), dty), st
        self.note("call " + c["def"])
        return self.opaque_call(c, argv, argt, st, dty, line)

    def pure_extern(self, c, argv, argt):
        d = c["def"].lstrip("<& ")
        if not d.startswith(("std::", "core::", "alloc::", "str::", "[", "u", "i", "f")):
            return False
        if IMPURE.search(c["def"]):
            return False
        for a, t in zip(argv, argt):
            i = tinfo(t)
            if (i.get("k") == "ref" and i.get("mut")) or i.get("k") in ("ptr", "rawptr", "closure", "fndef", "fnptr", "dyn"):
                return False
            if a.op in ("buf", "it"):
                return False
        return True

    def opaque_call(self, c, argv, argt, st, dty, line):
        """unknown callee: its result is unknown and so is everything it could mutate"""
        self.havoc_args(argv, argt, st, c["def"])
        return TOP("call " + c["def"]), st

    def havoc_args(self, argv, argt, st, name):
        for a, t in zip(argv, argt):
            self._havoc(a, t, st, name, 0)

    def _havoc(self, a, t, st, name, d):
        i = tinfo(t)
        if a.op == "ref" and i.get("k") == "ref" and i.get("mut"):
            c = a.a[0]
            v = st.cells.get(c)
            if v is not None and v.op == "buf":
                st.eff[v.a[0]] = st.eff.get(v.a[0], ()) + (("other", "unknown call " + name),)
            else:
                inner = self.load(st, a)
                if inner.op == "ref" and d < 3:
                    self._havoc(inner, i.get("of"), st, name, d + 1)
                else:
                    self.store(st, c, a.a[1], TOP("havoc " + name))
        elif a.op == "agg" and i.get("k") in ("closure", "tuple") and d < 3:
            for x, xt in zip(a.a[1], nfields(a.ty) or []):
                self._havoc(x, xt, st, name, d + 1)

    def call_value(self, f, argv, argt, st, dty, line):
        """call a function value (closure, fn item, fn pointer) with separate arguments"""
        for _ in range(8):
            if f.op != "ref":
                break
            inner = self.load(st, f)
            if inner.op in ("agg", "fnval", "fnptr"):
                return self.call_value_ref(f, inner, argv, argt, st, dty, line)
            f = inner
        return self.call_value_ref(None, f, argv, argt, st, dty, line)

    def call_value_ref(self, ref, f, argv, argt, st, dty, line):
        i = tinfo(f.ty)
        if f.op == "fnval" and i.get("k") == "fndef":
            return self.call_ref(i["callee"], argv, argt, st, dty, line)
        if f.op == "fnptr":
            if f.a[0] in self.p.fns:
                return self.call_inst(f.a[0], argv, st, line)
        if i.get("k") == "closure" and i.get("inst") is not None and i["inst"] in self.p.fns:
            body = self.p.fns[i["inst"]]
            selft = tinfo(body["locals"][1])
            if selft.get("k") == "ref":
                me = ref if ref is not None else self.ref_to(st, f)
            else:
                me = f
            # a closure body takes its arguments untupled
            want = body["argc"] - 1
            if want != len(argv):
                return TOP("closure arity"), st
            return self.call_inst(i["inst"], [me] + argv, st, line)
        self.note("call of unknown function value")
        return TOP("call value"), st

    # ------------------------------------------------------------- buffers
    def find_take(self, st, v):
        """the limited handle to a buffer behind a value"""
        for _ in range(8):
            if v.op == "btake":
                return v
            if v.op != "ref":
                return None
            v = self.load(st, v)
        return None

    def find_buf(self, st, v, ty=None):
        """the buffer object behind a (reference to a ...) buffer value"""
        for _ in range(8):
            if v.op in ("buf", "btake"):
                return v.a[0]
            if v.op == "ref":
                x = self.load(st, v)
                if x.op in ("buf", "btake"):
                    return x.a[0]
                if x.op == "ref":
                    inner = self.load(st, x)
                    if inner.op not in ("ref", "buf", "btake"):
                        # &mut &[u8]: a cursor over bytes
                        return self.adopt(st, v, inner)
                    v = x
                    continue
                if x.op in ("sw", "top", "bot"):
                    return None
                return None
            return None
        return None

    def adopt(self, st, ref, seq):
        """turn the `&[u8]` stored at ref into a read cursor"""
        c = self.new_buf(st, "cursor", seq)
        self.store(st, ref.a[0], ref.a[1], mk("buf", (c, "cursor")))
        return c

    def emit(self, st, buf, tok):
        st.eff[buf] = st.eff.get(buf, ()) + (tok,)

    def consumed(self, st, buf):
        return tok_size(st.eff.get(buf, ()), True)

    def remaining(self, st, buf):
        b = self.bufs.get(buf, {})
        total = LEN(b["base"]) if b.get("base") is not None else mk("rem", (buf,))
        rest = lsub(total, self.consumed(st, buf))
        tk = self.limits.get(buf)
        if tk is not None:
            # min(rest, limit - read since)
            left = lsub(ladd([tk.a[1], tk.a[2]]), self.consumed(st, buf))
            g = lsub(rest, left)
            if self.implied(st.pc, g):
                return left
            if self.implied(st.pc, lsub(left, rest)):
                return rest
            return MINMAX("min", rest, left)
        return rest


def pre_ty(v):
    return v.ty


def _own_phi(n, uid):
    """does a form hold a value that this loop itself changes?"""
    return has_op(n, ("phi",)) and any(x.op == "phi" and x.a[0] == uid for x in reach(n))


def _single_variant(ty):
    return len(tinfo(ty).get("variants") or [1]) <= 1


# ------------------------------------------------------------------ tokens
def map_tok(t, f):
    k = t[0]
    if k == "put":
        return ("put", t[1], t[2], t[3], f(t[4]))
    if k == "putseq":
        return ("putseq", f(t[1]))
    if k == "rep":
        return ("rep", t[1], f(t[2]), tuple(map_tok(x, f) for x in t[3]))
    if k == "alt":
        return ("alt", f(t[1]), tuple((c, tuple(map_tok(x, f) for x in ts)) for c, ts in t[2]), None if t[3] is None else tuple(map_tok(x, f) for x in t[3]))
    if k == "getseq":
        return ("getseq", t[1], f(t[2]))
    return t


def tok_size(toks, reads):
    """number of bytes read (reads=True) or written by a token list, as a node"""
    parts = []
    for t in toks:
        k = t[0]
        if k == "put":
            if not reads:
                parts.append(K(t[2]))
        elif k == "putseq":
            if not reads:
                parts.append(LEN(t[1]))
        elif k == "get":
            if reads:
                parts.append(K(t[3]))
        elif k == "getseq":
            if reads:
                parts.append(t[2])
        elif k == "rep":
            b = tok_size(t[3], reads)
            if b.op == "top":
                return b
            if not isk(b, 0):
                if t[2].op == "top":
                    return t[2]
                parts.append(SUM(t[1], t[2], b))
        elif k == "alt":
            cs = tuple((c, tok_size(ts, reads)) for c, ts in t[2])
            d = tok_size(t[3], reads) if t[3] is not None else BOT
            parts.append(SW(t[1], cs, d))
        elif k in ("other",):
            return TOP("buffer operation " + t[1])
        elif k == "mark":
            # everything consumed before the enclosing loop (and in its earlier iterations)
            parts.append(mk("markpos", (t[1],)))
    return ladd(parts) if parts else K(0)


def show_toks(toks, ind=0):
    out = []
    pad = "  " * ind
    for t in toks:
        k = t[0]
        if k == "put":
            out.append(f"{pad}put {t[1]}{8*t[2]}{'' if t[3]=='be' else ' LE'} {show(t[4])}")
        elif k == "putseq":
            out.append(f"{pad}put* {show(t[1])}")
        elif k == "get":
            out.append(f"{pad}get {t[2]}{8*t[3]}{'' if t[4]=='be' else ' LE'} -> #{t[1]}")
        elif k == "getseq":
            out.append(f"{pad}get* {show(t[2])} -> #{t[1]}")
        elif k == "rep":
            out.append(f"{pad}repeat i{t[1]} < {show(t[2])}:")
            out.extend(show_toks(t[3], ind + 1))
        elif k == "alt":
            out.append(f"{pad}match {show(t[1])}:")
            for c, ts in t[2]:
                out.append(f"{pad} {c}:")
                out.extend(show_toks(ts, ind + 1))
            if t[3] is not None:
                out.append(f"{pad} _:")
                out.extend(show_toks(t[3], ind + 1))
        else:
            out.append(pad + repr(t))
    return out


def conj(g):
    """the conditions whose conjunction g is, in the order in which they are tested"""
    if g is TRUE:
        return []
    if g.op == "sw" and len(g.a[1]) == 1:
        (k, v), = g.a[1]
        if v is FALSE and g.a[2].op != "bot":
            return [g] if g.a[2] is TRUE else conj(NOT(EQ(g.a[0], K(k)))) + conj(g.a[2])
        if g.a[2] is FALSE and v is not TRUE:
            return conj(EQ(g.a[0], K(k))) + conj(v)
    return [g]


def known(c, v, m):
    """records in m that condition c has truth value v"""
    m[c] = TRUE if v else FALSE
    n = NOT(c)
    if n.op != "k":
        m[n] = FALSE if v else TRUE
    if c.op == "not":
        known(c.a[0], not v, m) if c.a[0] not in m else None
    if c.op == "sw" and len(c.a[1]) == 1 and c.a[1][0][1] is FALSE and c.a[2] is TRUE:
        known(EQ(c.a[0], K(c.a[1][0][0])), not v, m)
    if c.op == "eq" and v:
        m[c.a[0]] = K(c.a[1])
