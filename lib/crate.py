"""Finds encoders, decoders, length functions and constructors in the facts and analyses them."""
from vg import *
import vg, interp, models
from interp import Prog, Interp, State, Undecided, tok_size, show_toks, map_tok


class Res:
    """result of analysing one function"""
    __slots__ = ("f", "I", "args", "ret", "st", "toks", "events", "err", "buf", "selfcell", "selfv", "unmodelled", "pre")

    def final_self(self):
        return self.st.cells.get(self.selfcell) if self.st is not None else None


class Crate:
    def __init__(self, facts):
        self.facts = facts
        self.p = Prog(facts)
        self.T = facts["types"]
        self.fns = [f for f in facts["fns"] if f["crate"] == "open_dis_rust"]
        self.by = {}
        for f in self.fns:
            self.by.setdefault((f.get("self_name"), f.get("impl_trait"), f["name"]), []).append(f)
        self.consts = {}
        for c in facts["consts"]:
            self.consts[(c.get("self_name"), c.get("impl_trait"), c["path"].split("::")[-1])] = c
        self._cache = {}

    def find(self, self_name, trait, name):
        r = self.by.get((self_name, trait, name))
        return r[0] if r else None

    def ty(self, name):
        return self.p.tname.get(name)

    def short(self, name):
        return name.split("::")[-1]

    # ---------------------------------------------------------------- running
    def run(self, f, args="sym", pre=None):
        """analyse fn f; arguments: &self/&mut self/values are symbolic, buffers are buffers"""
        key = (f["id"], pre is not None and id(pre))
        if pre is None and key in self._cache:
            return self._cache[key]
        r = Res()
        r.f = f
        I = Interp(self.p)
        r.I = I
        st = State()
        argv = []
        r.buf = r.selfcell = r.selfv = None
        names = {v: k for k, v in (f.get("names") or {}).items()} if isinstance(f.get("names"), dict) else {}
        for i in range(f["argc"]):
            t = f["locals"][i + 1]
            argv.append(self.sym_arg(I, st, t, i, f, r))
        r.args = argv
        if pre:
            pre(I, st, argv, r)
        r.pre = st.copy()
        try:
            r.ret, r.st = I.call_inst(f["id"], argv, st)
            r.err = None
        except Undecided as e:
            r.ret, r.st, r.err = None, None, str(e)
        r.events = I.events
        r.unmodelled = I.unmodelled
        r.toks = r.st.eff.get(r.buf) if r.st is not None and r.buf is not None else None
        if r.toks is not None and any(e.kind == "unknown-buffer" for e in r.events):
            # something was read from or written to a buffer that could not be told: the sequence is not known
            r.toks, r.ret, r.err = None, None, "reads or writes a buffer that could not be identified"
        if pre is None:
            self._cache[key] = r
        return r

    def sym_arg(self, I, st, t, i, f, r):
        ti = tinfo(t)
        if ti.get("k") == "ref":
            of = ti["of"]
            oi = tinfo(of)
            p = (oi.get("path") or "").split("::")[-1]
            if p in ("Bytes", "BytesMut"):
                b = I.new_buf(st, "r" if p == "Bytes" else "w")
                r.buf = b
                return mk("ref", (b, ()), t)
            nm = "self" if i == 0 and f.get("has_self", True) else f"a{i}"
            c = I.new_cell(st, self.sym_val(I, st, of, nm))
            if i == 0:
                r.selfcell = c
                r.selfv = st.cells[c]
            return mk("ref", (c, ()), t)
        if (ti.get("path") or "").split("::")[-1] in ("Bytes", "BytesMut"):
            b = I.new_buf(st, "r")
            r.buf = b
            return mk("buf", (b, "r"))
        return self.sym_val(I, st, t, "self" if i == 0 and f.get("has_self") else f"a{i}")

    def sym_val(self, I, st, t, nm):
        return IN(nm, t)
