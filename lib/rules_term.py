"""C32: every codec operation finishes, and a short message cannot keep a decoder busy."""
from base import *
from ev import Env, Dead, Undef
import vg
from rules_panic import forms, vague, describe, site, GUARDED

ROUNDS = 1 << 17        # rounds that a 16-bit count of empty items can ask for, and some


def c32(cx, R):
    R.rule("every loop of every encoder, length function and decoder (inlined): its trip count is known and no octets or values make it exceed the octets present and the lists held by more than "
           f"{ROUNDS} rounds in which nothing is read, or every round reads at least one octet or lowers a number; no first round leaves everything as it was with the loop to go on; no call chain comes back to the same function with the same arguments")
    for it in sorted(cx.items.values(), key=lambda i: i.name or ""):
        for f in it.enc + it.len + it.dec:
            finish(cx, R, f, f"{it.short}.{short(f.get('impl_trait') or '')}.{f['name']}", "record")
    for nm, p in sorted(cx.pdus.items()):
        for k in ("serialize", "calculate_length", "finalize", "deserialize", "deserialize_without_header"):
            f = p.get(k) or next((g for g in cx.C.fns if g["name"] == k and g["argc"] == 1 and refof(g["locals"][1]) == p["ty"]), None)
            if f is not None:
                finish(cx, R, f, f"{nm}.{k}", "pdu")


def lens(n):
    return [x for x in reach(n) if x.op == "len"]


def factors(t):
    return [y for x in t.a for y in factors(x)] if t.op == "mul" else [t]


def bounded(n):
    """is a trip count at most a multiple of list lengths, octets present and a constant, whatever the values?"""
    c, ts = lin(n)
    for t, k in ts.items():
        lo, hi = rng(t)
        if k < 0 and lo >= 0 or k > 0 and hi * k <= ROUNDS:
            continue
        if t.op in ("len", "rem") and abs(k) <= 64:
            continue
        if t.op == "min" and any(bounded(x) for x in t.a if isinstance(x, N)) or t.op == "max" and all(bounded(x) for x in t.a if isinstance(x, N)):
            continue
        if t.op == "mul":
            fs = factors(t)
            small = [x for x in fs if 0 <= rng(x)[0] and rng(x)[1] <= ROUNDS]
            top = abs(k)
            for x in small:
                top *= max(1, rng(x)[1])
            if top <= ROUNDS and len(small) < len(fs) and all(bounded(x) for x in fs):
                continue
        if t.op == "sum" and bounded(t.a[1]) and bounded(t.a[2]):
            continue
        if t.op == "sw" and all(bounded(x) for _, x in t.a[1]) and bounded(t.a[2]):
            continue
        return False
    return True


def total(e, loops):
    """rounds of a loop, times those of the loops around it in whose rounds nothing need be read"""
    n = e.data[1]
    for u in e.loops:
        o = loops.get(u)
        if o is not None and o[1] is not None and o[1].op not in ("top", "bot") and (o[2].op in ("top", "bot") or rng(o[2])[0] <= 0):
            n = lmul(o[1], n)
    return n


def excess(n, rem, env):
    """does the number of rounds exceed what is there?"""
    have = sum(ev._num(x, env) for x in lens(n)) * 64 + (ev._num(rem, env) if rem is not None else 0)
    return ev._num(n, env) > ROUNDS + have


def one_piece(n):
    """the same over an input in one piece, whose next piece is all that is left"""
    m = {}
    for x in reach(n):
        if x.op == "len" and x.a[0].op == "chunk":
            m[x] = ladd([mk("rem", (x.a[0].a[0],)), lmul(K(-1), x.a[0].a[1])])
    return subst(n, m) if m else n


def finish(cx, R, f, obj, kind):
    r = cx.run(f)
    partial = r.ret is None and r.st is None and r.err
    rem = mk("rem", (r.buf,)) if r.buf is not None else None
    und, n, looked = None, 0, 0
    seen = set()

    def viol(e, what, msg):
        nonlocal n
        key = f"{obj}/{what}" + (f"@{short(e.fn)}" if e.fn and e.fn != (f.get("path") or f["key"]) else "")
        if key not in seen:
            seen.add(key)
            n += 1
            R.viol(key, site(cx, f, e), f"{obj}: {msg}", obj, kind)

    def find(e, node, pred, extra=(), also=()):
        """a valuation that satisfies the conditions of the event and pred"""
        maybe = False
        for g, cs in forms(r, e, node, tuple(e.pc) + tuple(extra)):
            if any(c is FALSE for c in cs):
                continue
            if g is not None and vague(g) or any(vague(c) for c in cs):
                maybe = True
                continue
            w = ev.witness((lambda env: pred(g, env)), [x for x in (g, rem) if x is not None] + list(also) or [K(0)], cs, 500)
            if w and w[0]:
                return describe(w[0], cs), True
        return None, maybe

    loops = {e.data[0]: e.data for e in r.events if e.kind == "loop"}
    for e in r.events:
        if e.kind == "recur":
            path, same = e.data
            looked += 1
            if same and not (partial and e.loops):
                w, _ = find(e, None, lambda g, env: True)
                if w and not (partial and e.pc and vague(e.pc[0])):
                    viol(e, "recursion", f"{path} calls itself with the same arguments ({w}): it never returns")
                    continue
            und = und or f"recursion of {path}"
            continue
        if e.kind != "loop":
            continue
        uid, cnt, per, whole, guard, carried, moves, exits, writes = e.data
        looked += 1
        lo = rng(per)[0] if per.op not in ("top", "bot") else 0
        if cnt is not None:
            if lo >= 1:
                continue
            if isk(per, 0):
                cnt = total(e, loops)
            if bounded(cnt):
                continue
            if partial and e.loops:
                und = und or f"rounds {show(cnt)[:80]}"
                continue
            if isk(per, 0):
                w, maybe = find(e, cnt, lambda g, env: excess(g, rem, env))
            elif whole and per.op not in ("top", "bot") and not contains(per, IX(uid)) and not has_op(per, ("phi",)):
                # what a round reads depends on the read position only: if the first reads nothing, none does
                p0 = one_piece(subst(per, dict(r.I.loop_start.get(uid, {}))))
                w, maybe = (None, True) if vague(p0) else find(e, cnt, lambda g, env: ev._num(p0, env) == 0 and excess(g, rem, env), (), [p0])
            else:
                w, maybe = None, True
            if w:
                viol(e, "rounds", f"a loop that reads nothing runs {show(cnt)[:80]} rounds, more than the octets and lists present justify ({w})")
            elif rng(cnt)[1] > ROUNDS:
                und = und or f"rounds {show(cnt)[:80]}"
            continue
        if lo >= 1 and whole:
            continue
        down = False
        for ph, v0, v1 in carried:
            if tinfo(v0.ty).get("k") == "int" or v0.op in ("k", "lin", "len"):
                d = lsub(v1, ph)
                if d.op == "lin" and not contains(d, ph) and rng(d)[1] <= -1:
                    down = True
        if down:
            continue
        if moves or not whole or partial and e.loops:
            und = und or "a loop whose end is not recognised"
            continue
        # the first round: does everything stay as it was?
        start = dict(r.I.loop_start.get(uid, {}))
        first = lambda x: one_piece(subst(x, start))
        g0 = first(guard)
        # a list that only grows stays as it was when it grows by nothing
        grown = lambda ph, v1: v1.op == "seq" and v1.a and v1.a[0] == ("n", ph) and not any(contains(x[1], ph) for x in v1.a[1:])
        after = [(K(0), first(lsub(LEN(v1), LEN(ph)))) if grown(ph, v1) else (v0, first(v1)) for ph, v0, v1 in carried]
        per0 = first(per)
        cs = [x for x in conjs(g0)]
        if any(vague(x) for _, x in after) or vague(per0) or any(vague(c) for c in cs):
            und = und or "a loop whose end is not recognised"
            continue

        def stuck(g, env):
            return ev._num(per0, env) == 0 and all(ev._cmp(ev.ev(a, env), ev.ev(b, env)) is True for a, b in after)
        w, _ = find(e, None, stuck, cs, [x for _, x in after] + [per0])
        if w:
            viol(e, "spin", f"a loop round can leave everything as it was while the loop goes on ({w}): it never ends")
        else:
            und = und or "a loop whose end is not recognised"
    if r.ret is None and r.err and not n:
        und = und or r.err
    if und and not n:
        R.undecided(obj, und, kind)
    elif not n:
        R.ok(f"{looked} loops and calls back examined", obj, kind)


def conjs(g):
    if g is TRUE:
        return []
    from interp import conj
    return list(conj(g))
