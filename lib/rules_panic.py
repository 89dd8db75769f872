"""C12, C13, C14: no panic in encoders, no panic in decoders, no allocation from unchecked sizes."""
import re
from base import *
from ev import Env, Dead, Undef
import vg

GUARDED = ("overflow", "bounds", "slice", "underflow", "misuse")
VAGUE = ("top", "unk", "opaque", "phi", "markpos", "chunk", "buf")
WHAT = {"overflow": "arithmetic overflow", "bounds": "index out of range", "slice": "slice out of range", "panic": "panic", "div0": "division by zero",
        "underflow": "reading past the end of the buffer", "misuse": "library call outside its domain", "misuse0": "library call outside its domain", "charb": "text cut inside a character"}


def vague(n):
    return has_op(n, VAGUE) or any(x.op == "discr" and x.a[0].op == "fun" and str(x.a[0].a[0]).startswith("lib:") or x.op == "fun" and not str(x.a[0]).startswith(("str:", "text", "fmt:")) and tinfo(x.ty).get("k") not in ("adt",) for x in reach(n))


def forms(r, e, g, pc):
    """(guard, conditions) of an event: as it stands, and for the first iteration of the loops around it"""
    pc = tuple(x for c in pc for x in conjuncts(c))
    out = [(g, pc)]
    ls = r.I.loop_start
    start = {}
    for u in e.loops:
        start.update(ls.get(u, {}))
    if start:
        n, cs = g, pc
        ran = []
        for u in e.loops:
            b = vg.ix_bounds.get(u)
            if b is not None:
                ran.append(GE0(ladd([b, K(-1)])))
        cs = cs + tuple(ran)
        for _ in range(len(e.loops) + 1):
            memo = {}
            n = subst(n, start, memo) if n is not None else None
            cs = tuple(subst(c, start, memo) for c in cs)
        out.append((n, tuple(c for c in cs if c is not TRUE)))
    return out


def mentions(conds, text):
    """do the conditions tell about the contents of a text, not only about its length?"""
    parts = {x for x in reach(text) if x.op in ("get", "getseq", "lossy")} | {text}
    todo, seen = list(conds), set()
    while todo:
        x = todo.pop()
        if x in seen or x.op == "len":
            continue
        if x in parts:
            return True
        seen.add(x)
        for y in x.a:
            if isinstance(y, N):
                todo.append(y)
            elif isinstance(y, tuple):
                todo.extend(z for w in y for z in (w if isinstance(w, tuple) else (w,)) if isinstance(z, N))
    return False


def plain_text(v):
    """a text whose contents are free: held by a value, or decoded from octets"""
    return (v.op in ("in", "fld", "elem", "phi") or v.op == "deref" and plain_text(v.a[0]) or v.op == "lossy" and not any(x.op in ("fun", "top", "opaque") for x in reach(v))
            or v.op == "fun" and str(v.a[0]).startswith(("str:trim_end_matches", "lib:std::ops::Deref::deref")) and plain_text(v.a[1]))


def reachable(cx, r, e, trials=500):
    """a valuation under which the event happens, or None"""
    if e.kind in GUARDED:
        g = e.data[-1]
        bad = lambda env, n: ev._num(n, env) < 0
    elif e.kind == "charb" and (not plain_text(e.data[1]) or mentions(e.pc, e.data[1])):
        return None
    elif e.kind in ("div0", "misuse0", "charb"):
        g = e.data[-1]
        bad = lambda env, n: not ev._num(n, env)
    elif e.kind == "panic":
        g = None
        bad = None
    else:
        return None
    for n, cs in forms(r, e, g, e.pc):
        if any(c is FALSE for c in cs):
            continue
        if (n is not None and vague(n)) or any(vague(c) for c in cs):
            continue
        nodes = [n] if n is not None else [mk("rem", (r.buf,)) if r.buf is not None else K(0)]
        w = witness((lambda env: bad(env, n)) if n is not None else (lambda env: True), nodes, cs, trials)
        if w and w[0]:
            return describe(w[0], cs)
    return None


def describe(env, cs=()):
    parts = [f"{show(k)}={v}" for k, v in list(env.fixed.items())[:6]] + [f"{ev._kname(k)}={v}" for k, v in list(env.leaf.items())[:8]]
    return ("with " + ", ".join(parts)) if parts else ("always" if not cs else "when " + " and ".join(show(c)[:60] for c in cs[:3]))


def detail(e):
    if e.kind == "overflow":
        return f"{e.data[0]} of {show(e.data[1])[:60]} and {show(e.data[2])[:60]}"
    if e.kind == "panic":
        return f"{e.data[0]} {e.data[1]}".strip()
    if e.kind == "charb":
        return f"offset {show(e.data[0])[:60]} of {show(e.data[1])[:60]}"
    if e.kind.startswith("misuse"):
        return " ".join(show(x)[:60] if isinstance(x, N) else str(x) for x in e.data[:-1])
    if e.kind == "bounds":
        return f"index {show(e.data[0])[:60]} of {show(e.data[1])[:60]}"
    return " ".join(show(x)[:60] if isinstance(x, N) else str(x) for x in e.data[:3])


def site(cx, f, e):
    """file:line of an event: in the function that contains the construct"""
    g = next((h for h in cx.C.fns if h.get("path") == e.fn or h["key"] == e.fn), None)
    return f"{where(g or f, e.line)}"


CODEC = {"deserialize", "deserialize_field", "deserialize_with_len", "deserialize_body", "deserialize_without_header"}


def owner(e):
    """the name of the function a construct belongs to; for a read, of the decoder: its closures and helpers are parts of it"""
    s = short(re.sub(r"::\{closure#\d+\}", "", e.fn))
    return s if e.kind != "underflow" or s in CODEC else "deserialize"


def sweep(cx, R, f, obj, kind, skip=()):
    """all events of one function; returns the number of violations"""
    r = cx.run(f)
    nm = obj
    n = 0
    seen = set()
    und = None
    partial = r.ret is None and r.st is None and r.err
    for e in r.events:
        k = e.kind
        if k in skip or partial and e.loops:
            continue
        if k.endswith("?"):
            und = und or f"{k} {detail(e)}"
            continue
        if k not in WHAT:
            continue
        # one report per kind and function the construct is in
        key = f"{nm}/{k}" + (f"@{owner(e)}" if e.fn and e.fn != (f.get("path") or f["key"]) else "")
        if key in seen:
            continue
        w = reachable(cx, r, e)
        if w and partial and not e.pc and e.kind == "panic":
            w = None
        if w:
            seen.add(key)
            n += 1
            R.viol(key, site(cx, f, e), f"{nm}: {WHAT[k]} ({detail(e)}) is reachable {w}", nm, kind)
        else:
            und = und or f"{k} {detail(e)}"
    if r.ret is None and r.err and not n:
        und = und or r.err
    if und and not n:
        R.undecided(nm, und, kind)
    elif not n:
        R.ok(f"no reachable panic ({len(r.events)} guarded sites examined)", nm, kind)
    return n


def c12(cx, R):
    R.rule("in every encoder, length function, finalize and all they call (inlined): no arithmetic overflow, out-of-range index or slice, failed unwrap, panic! or division by zero whose path condition and "
           "failing guard can be satisfied by values of the public fields")
    for it in sorted(cx.items.values(), key=lambda i: i.name or ""):
        for f in it.enc + it.len:
            sweep(cx, R, f, f"{it.short}.{short(f.get('impl_trait') or '')}.{f['name']}", "record")
    for nm, p in sorted(cx.pdus.items()):
        for k in ("serialize", "calculate_length", "finalize"):
            f = p.get(k) or next((g for g in cx.C.fns if g["name"] == k and g["argc"] == 1 and refof(g["locals"][1]) == p["ty"]), None)
            if f is not None:
                sweep(cx, R, f, f"{nm}.{k}", "pdu")


# ------------------------------------------------------------------------------- C13
def fixed_size(cx, p):
    """octets of a PDU's fixed part: the least length over all values (no list elements, no optional parts)"""
    rl = cx.run(p["calculate_length"])
    if rl.ret is None:
        return None
    best = None
    for conds, leaf in ok_leaves(rl.ret):
        n = leaf.a[1][0]
        n = strip_trunc(n, conds)
        lo = rng(n)[0]
        if lo == -INF:
            return None
        best = lo if best is None else min(best, lo)
    return best


def least(n):
    """least value of a size over all values of its leaves"""
    return rng(n)[0]


def c13(cx, R):
    from rules_size import header_index, own_code, field
    R.rule("in every PDU decoder (both entries) and header decoder no panic site is reachable for any octets; record decoders have no panic besides reading past the end, and every read of a PDU decoder is "
           "covered by a remaining-length check; every successful leaf implies that the fixed part was present, every other leaf is the underflow or invalid-header error")
    for it in sorted(cx.items.values(), key=lambda i: i.name or ""):
        for f in it.dec:
            if f.get("impl_trait") == PDU_TRAIT or f["name"] == "deserialize_body" or it.name in {p["name"] for p in cx.pdus.values()}:
                continue
            if f["name"] == "deserialize_with_len" or f["argc"] > 1 and any(tinfo(t).get("k") == "int" for t in f["locals"][1:1 + f["argc"]]):
                # the length argument is not wire data: values beyond the wire field cannot come from a message
                skip = ("underflow", "panic")
            else:
                skip = ("underflow",)
            sweep(cx, R, f, f"{it.short}.{short(f.get('impl_trait') or '')}.{f['name']}", "record", skip)
    for nm, p in sorted(cx.pdus.items()):
        size = fixed_size(cx, p)
        for which in ("deserialize", "deserialize_without_header"):
            f = p.get(which)
            if f is None:
                continue
            obj = f"{nm}.{which}"
            sweep(cx, R, f, obj, "pdu")
            r = cx.run(f)
            if r.ret is None:
                continue
            rem = mk("rem", (r.buf,))
            if size is None:
                R.undecided(f"{obj}/fixed", "fixed size unknown", "truncation")
                continue
            need = size - (0 if which == "deserialize" else 12)
            bad = None
            und = None
            # with too few octets nothing is returned
            for conds, leaf in result_leaves(r.ret):
                v = variant_name(leaf)
                if v == "Ok":
                    lo = -upper(lmul(K(-1), rem), conds)
                    if lo >= need:
                        continue
                    w = witness(lambda env: ev._num(rem, env) < need, [rem], conds, 600)
                    if w and w[0]:
                        bad = f"succeeds with {ev._num(rem, w[0])} octets although the fixed part has {need}"
                    else:
                        und = und or f"success needs only {lo} octets as far as visible"
                elif v == "Err":
                    e = variant_name(leaf.a[1][0]) if leaf.a[1] else None
                    if e is None:
                        und = und or f"error {show(leaf)[:80]}"
                    elif e not in ("BufferUnderflow", "InvalidHeader"):
                        w = witness(lambda env: ev._num(rem, env) < need, [rem], conds, 600)
                        if w and w[0]:
                            bad = f"truncated to {ev._num(rem, w[0])} octets gives {e} instead of the buffer-underflow error"
                    elif e == "BufferUnderflow":
                        # never raised on complete input whose fixed part is all there and that has no lists
                        pass
                else:
                    und = und or show(leaf)[:100]
                if bad:
                    break
            if not bad:
                bad = short_own(cx, R, p, which, r, rem, need)
            if bad:
                R.viol(f"{obj}/truncation", where(f), f"{obj} {bad}", nm, "truncation")
            elif und:
                R.undecided(f"{obj}/truncation", und, "truncation")
            else:
                R.ok(f"fixed part of {need} octets required", obj, "truncation")
    peek(cx, R)


def short_own(cx, R, p, which, r, rem, need):
    """with the PDU's own type and fewer octets than the fixed part the result is the underflow error"""
    from rules_size import header_index, own_code, field, get_at
    code = own_code(cx, p)
    hi = header_index(p["ty"])
    if code is None or hi is None:
        return None
    if which == "deserialize":
        T = None
        for conds, v, toks in ok_path(r):
            g = get_at(toks, 2, 1)
            if g is not None:
                T = next((x for x in reach(r.ret) if x.op == "get" and x.a[0] == g.a[0]), None)
    else:
        hdr = next((a for a in r.args if (tinfo(a.ty).get("path") or "") == (tinfo(hi[1]).get("path") or "-")), None)
        t = field(hdr, "pdu_type") if hdr is not None else None
        T = DISCR(t) if t is not None else None
    if T is None:
        return None
    own = simplify(r.ret, (EQ(T, K(code[0])),))
    for conds, leaf in result_leaves(own):
        if variant_name(leaf) != "Err" or not leaf.a[1]:
            continue
        e = variant_name(leaf.a[1][0])
        if e == "BufferUnderflow" or e is None:
            continue
        w = witness(lambda env: ev._num(rem, env) < need, [rem], conds, 400)
        if w and w[0]:
            return f"truncated to {ev._num(rem, w[0])} octets gives {e} instead of the buffer-underflow error"
    return None


def peek(cx, R, value=False):
    """get_pdu_type: nothing below 12 octets, else what the type octet denotes"""
    fs = [f for f in cx.C.fns if f["name"] == "get_pdu_type"]
    if not fs:
        R.undecided("get_pdu_type", "not found", "peek")
    for f in fs:
        sweep(cx, R, f, f["key"], "peek")
        r = cx.run(f)
        if r.ret is None or not r.args or not value:
            continue
        a = r.args[0]
        if a.op == "ref":
            a = r.selfv if r.selfv is not None else a
        seqs = [x for x in reach(r.ret) if x.op == "len"]
        ln = seqs[0] if seqs else None
        if ln is None:
            R.undecided(f["key"], f"no length test in {show(r.ret)[:80]}", "peek")
            continue
        base_ = ln.a[0]
        oct2 = ELEM(base_, K(2))
        ty = f["locals"][0]
        vs = tinfo(ty).get("variants")
        some = next(n for n, v in enumerate(vs) if v["name"] == "Some")
        nd = next(v["discr"] for v in vs if v["name"] == "None")
        pt = vs[some]["fields"][0]["ty"]
        dom = {v["discr"] for v in tinfo(pt)["variants"]}
        other = next((v["discr"] for v in tinfo(pt)["variants"] if v["name"] == "Other"), 0)
        bad = None
        und = None
        d = DISCR(r.ret)
        val = DISCR(FLD(r.ret, some, 0, pt))
        import random
        for n in (0, 1, 2, 3, 4, 11, 12, 13, 100, 8192, 1 << 20):
            for b in range(256) if n == 12 else (0, 1, 67, 255):
                try:
                    env = Env(random.Random(0), [0], {ln: n, oct2: b})
                    x = ev._num(d, env)
                    if (x == nd) != (n < 12):
                        bad = f"gives {'nothing' if x == nd else 'a type'} for {n} octets"
                        break
                    if n >= 12:
                        y = ev._num(val, env)
                        exp = b if b in dom else other
                        if y != exp:
                            bad = f"gives type {y} for type octet {b}"
                            break
                except (Undef, Dead):
                    und = und or f"{show(r.ret)[:120]}"
            if bad:
                break
        # no other octet matters
        for x in reach(r.ret):
            if bad or x.op != "elem" or x.a[0] is not base_ or x is oct2:
                continue
            for b in range(256):
                for t in (1, 67):
                    try:
                        env = Env(random.Random(0), [0], {ln: 40, oct2: t, x: b})
                        y = ev._num(val, env)
                        if ev._num(d, env) == nd or y != t:
                            bad = f"gives type {y} for type octet {t} when {show(x)[:40]} is {b}"
                    except (Undef, Dead):
                        und = und or f"{show(r.ret)[:120]}"
                    if bad:
                        break
                if bad:
                    break
        if bad:
            R.viol(f"{f['key']}/value", where(f), f"{f['key']} {bad}", f["key"], "peek")
        elif und:
            R.undecided(f["key"], und, "peek")
        else:
            R.ok("nothing below 12 octets, else the type octet's type (256 values)", f["key"], "peek")


# ------------------------------------------------------------------------------- C14
SLACK = 65536
HINT = 1 << 22      # what a collect() may reserve for the size hint of a 16-bit count


def c14(cx, R):
    R.rule("every allocation request in a decoder whose size depends on octets read: no valuation of the octets and of the number of octets present makes it exceed the octets present by more than "
           f"{SLACK} octets ({HINT} for the size hint of an iterator that is collected)")
    for it in sorted(cx.items.values(), key=lambda i: i.name or ""):
        for f in it.dec:
            r = cx.run(f)
            obj = f"{it.short}.{short(f.get('impl_trait') or '')}.{f['name']}"
            if r.ret is None and r.st is None:
                R.undecided(obj, r.err, "decoder")
                continue
            rem = mk("rem", (r.buf,)) if r.buf is not None else None
            n = 0
            und = None
            for e in r.events:
                if e.kind != "alloc":
                    continue
                what, cnt, es = e.data
                es = es or 1
                slack = HINT if what == "collect" else SLACK
                if not isinstance(cnt, N):
                    continue
                if isk(cnt):
                    if cnt.a[0] * es > SLACK:
                        n += 1
                        R.viol(f"{obj}/{what}", site(cx, f, e), f"{obj} allocates {cnt.a[0]} elements of {es} octets", obj, "decoder")
                    continue
                if rem is None:
                    und = und or "no buffer"
                    continue
                hit = None
                for c, cs in forms(r, e, cnt, e.pc):
                    if any(x is FALSE for x in cs):
                        continue
                    if vague(c) or any(vague(x) for x in cs):
                        und = und or f"{what} of {show(c)[:80]}"
                        continue
                    if upper(lsub(c, rem), cs) <= 0:
                        continue
                    w = witness(lambda env: ev._num(c, env) * es > slack + max(1, es) * ev._num(rem, env), [c, rem], cs, 600)
                    if w and w[0]:
                        hit = f"{ev._num(c, w[0])} elements of {es} octets while {ev._num(rem, w[0])} octets are present ({describe(w[0], cs)})"
                        break
                if hit:
                    n += 1
                    R.viol(f"{obj}/{what}", site(cx, f, e), f"{obj} allocates ({what}) {hit}", obj, "decoder")
            if und and not n:
                R.undecided(obj, und, "decoder")
            elif not n:
                R.ok(f"{sum(1 for e in r.events if e.kind == 'alloc')} allocation requests examined", obj, "decoder")
