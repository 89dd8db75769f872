"""Value-graph nodes and unit lists to and from JSON, independent of type numbering and field order."""
from base import *


class Missing(Exception):
    pass


class Writer:
    def __init__(self):
        self.nodes = []
        self.idx = {}
        self.uids = {}

    def uid(self, u):
        return self.uids.setdefault(u, len(self.uids) + 1)

    def node(self, n):
        r = self.idx.get(n)
        if r is not None:
            return r
        o, a = n.op, n.a
        if o == "fld":
            i = tinfo(a[0].ty)
            vs = i.get("variants")
            vn = vs[a[1]]["name"] if vs and a[1] is not None else None
            fs = vs[a[1] or 0]["fields"] if vs else None
            args = [["n", self.node(a[0])], vn, fs[a[2]]["name"] if fs else str(a[2]), a[2], len(fs) if fs else -1]
        elif o == "agg":
            i = tinfo(n.ty)
            vs = i.get("variants")
            vn = vs[a[0]]["name"] if vs and a[0] is not None else None
            args = [vn, [["n", self.node(x)] for x in a[1]]]
        elif o in ("ix", "get"):
            args = [self.uid(a[0])] + [self.arg(x) for x in a[1:]]
        elif o in ("map", "sum"):
            args = [self.uid(a[0])] + [self.arg(x) for x in a[1:]]
        elif o == "getseq":
            args = [self.uid(a[0]), self.arg(a[1])]
        else:
            args = [self.arg(x) for x in a]
        self.nodes.append([o, args, self.ty(n.ty)])
        self.idx[n] = len(self.nodes) - 1
        return self.idx[n]

    def ty(self, t):
        if isinstance(t, int):
            return tinfo(t).get("name")
        return None

    def arg(self, x):
        if isinstance(x, N):
            return ["n", self.node(x)]
        if isinstance(x, tuple):
            return ["t", [self.arg(y) for y in x]]
        if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
            return ["v", x]
        if isinstance(x, float):
            return ["v", None]
        raise Missing(f"cannot store {type(x)}")

    def units(self, us):
        out = []
        for u in us:
            if u[0] == "put":
                out.append(["put", u[1], self.node(u[2])])
            elif u[0] == "rep":
                out.append(["rep", self.uid(u[1]), self.node(u[2]), self.units(u[3])])
            elif u[0] == "alt":
                out.append(["alt", self.node(u[1]), [[c, self.units(b)] for c, b in u[2]], self.units(u[3]) if u[3] is not None else None])
            else:
                raise Missing(f"unit {u[0]}")
        return out


class Reader:
    def __init__(self, cx, nodes):
        self.cx, self.src = cx, nodes
        self.memo = {}
        self.uids = {}

    def uid(self, u):
        if u not in self.uids:
            self.uids[u] = vg.fresh()
        return self.uids[u]

    def ty(self, name):
        if name is None:
            return None
        t = self.cx.tyname(name)
        if t is None:
            raise Missing(f"type {name}")
        return t

    def node(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._node(*self.src[i])
        return r

    def arg(self, x):
        k, v = x
        if k == "n":
            return self.node(v)
        if k == "t":
            return tuple(self.arg(y) for y in v)
        return v

    def _node(self, o, args, tn):
        ty = self.ty(tn)
        if o == "fld":
            b = self.node(args[0][1])
            vn, fnm, fi, cnt = args[1:]
            bt = b.ty
            vs = tinfo(bt).get("variants")
            vi = None
            if vs and (vn is not None):
                vi = next((k for k, v in enumerate(vs) if v["name"] == vn), None)
                if vi is None:
                    raise Missing(f"variant {vn}")
            if vs:
                fs = vs[vi or 0]["fields"]
                j = next((k for k, f in enumerate(fs) if f["name"] == fnm), None)
                if j is None:
                    if len(fs) != cnt:
                        raise Missing(f"field {fnm}")
                    j = fi
                return FLD(b, vi, j, fs[j]["ty"])
            return FLD(b, vi, fi, ty)
        if o == "agg":
            vs = tinfo(ty).get("variants")
            vi = next((k for k, v in enumerate(vs) if v["name"] == args[0]), None) if vs and args[0] is not None else None
            if vs and args[0] is not None and vi is None:
                raise Missing(f"variant {args[0]}")
            return AGG(ty, vi, [self.node(x[1]) for x in args[1]])
        if o in ("ix", "get"):
            return mk(o, (self.uid(args[0]),) + tuple(self.arg(x) for x in args[1:]), ty)
        if o in ("map", "sum"):
            n = mk(o, (self.uid(args[0]),) + tuple(self.arg(x) for x in args[1:]), ty)
            return rebuild(n, lambda x: x)
        if o == "getseq":
            return mk(o, (self.uid(args[0]), self.arg(args[1])), ty)
        n = mk(o, tuple(self.arg(x) for x in args), ty)
        return rebuild(n, lambda x: x) if kids(n) else n

    def units(self, us):
        out = []
        for u in us:
            if u[0] == "put":
                out.append(("put", u[1], self.node(u[2])))
            elif u[0] == "rep":
                uid, n = self.uid(u[1]), self.node(u[2])
                vg.ix_bounds[uid] = n
                out.append(("rep", uid, n, self.units(u[3])))
            else:
                out.append(("alt", self.node(u[1]), [(c, self.units(b)) for c, b in u[2]], self.units(u[3]) if u[3] is not None else None))
        return out
