"""C11, C16, C21: published numbers, purity, thread-safety of the types."""
import re
from base import *
import tables
from rules_wire import is_enum, default_of


# ------------------------------------------------------------------------------- C11
def ints_of(v):
    """the numbers in a constant value, in field order"""
    if isinstance(v, dict):
        if "bits" in v:
            return [v["bits"]]
        if "fields" in v:
            return [x for f in v["fields"] for x in ints_of(f)]
        if "v" in v:
            return ints_of(v["v"])
        return []
    if isinstance(v, list):
        return [x for f in v for x in ints_of(f)]
    return []


def gen_codes(cx):
    ex = {a["path"]: a["exported"] for a in cx.F["adts"]}
    en = {}
    for ty, t in enumerate(cx.C.T):
        if t.get("local") and is_enum(ty) and ex.get(t["path"]):
            d = default_of(cx, ty)
            en[t["path"]] = dict(variants={v["name"]: v["discr"] for v in t["variants"]},
                                 default=next((v["name"] for v in t["variants"] if v["discr"] == d), None))
    cs = {}
    for c in cx.F["consts"]:
        if not c.get("exported") or c.get("impl_trait"):
            continue
        n = ints_of(c["v"])
        if len(n) == 1 and not (c["name"].startswith("MAX_") or c["name"] in ("PDU_HEADER_SIZE", "BITS_PER_BYTE")):
            cs[c["path"]] = n[0]
    return dict(enums=en, consts=cs)


def c11(cx, R):
    R.rule("every variant of the frozen code-point table exists in the enumeration of that name with the same discriminant, every default variant is the frozen one, every published flag and "
           "wire constant has its frozen value; further variants must not reuse a number")
    tab = tables.load("codes")
    bypath, byname = {}, {}
    for ty, t in enumerate(cx.C.T):
        if t.get("local") and is_enum(ty):
            bypath[t["path"]] = ty
            byname.setdefault(short(t["path"]), []).append(ty)
    spans = {a["path"]: a["span"] for a in cx.F["adts"]}
    for path, e in tab["enums"].items():
        ty = bypath.get(path)
        if ty is None:
            c = byname.get(short(path), [])
            if len(c) == 1:
                ty = c[0]
            else:
                # moved or renamed: the enumeration with the same code points
                c = [t for t in bypath.values() if {v["name"]: v["discr"] for v in tinfo(t)["variants"]} == e["variants"]]
                if c:
                    ty = c[0]
        if ty is None:
            R.viol(f"{short(path)}/gone", path, f"published enumeration {path} no longer exists", path, "enumeration")
            continue
        i = tinfo(ty)
        have = {v["name"]: v["discr"] for v in i["variants"]}
        sp = spans.get(i["path"], ["?", 0])
        w = f"{sp[0]}:{sp[1]} {i['path']}"
        bad = False
        for n, d in e["variants"].items():
            if n not in have:
                alias = const_of(cx, i, n)
                if alias == d:
                    continue
                R.viol(f"{short(path)}.{n}/gone", w, f"{short(path)}::{n} = {d} no longer exists", path, "enumeration")
                bad = True
            elif have[n] != d:
                R.viol(f"{short(path)}.{n}/number", w, f"{short(path)}::{n} is {have[n]}, published as {d}", path, "enumeration")
                bad = True
        if not bad:
            R.ok(f"{len(e['variants'])} code points as published", path, "enumeration")
        if e["default"] is not None:
            d = default_of(cx, ty)
            got = next((v["name"] for v in i["variants"] if v["discr"] == d), None)
            if got is None:
                R.undecided(f"{short(path)}.default", "default variant not determined", "default")
            elif d != e["variants"][e["default"]]:
                R.viol(f"{short(path)}.default", w, f"the default of {short(path)} is {got} instead of {e['default']}", path, "default")
            else:
                R.ok(f"default {got}", path, "default")
    now = {}
    for c in cx.F["consts"]:
        n = ints_of(c["v"])
        if len(n) == 1:
            now[c["path"]] = (n[0], c["span"])
    tail = {}
    for p, v in now.items():
        tail.setdefault("::".join(p.split("::")[-2:]), []).append(v)
    for p, v in tab["consts"].items():
        got = now.get(p)
        if got is None:
            c = tail.get("::".join(p.split("::")[-2:]), [])
            got = c[0] if len(c) == 1 else None
        if got is None:
            R.viol(f"{short(p)}/gone", p, f"published constant {p} no longer exists", p, "constant")
        elif got[0] != v:
            R.viol(f"{'.'.join(p.split('::')[-2:])}/value", f"{got[1][0]}:{got[1][1]} {p}", f"{p} is {got[0]}, published as {v}", p, "constant")
        else:
            R.ok("value as published", p, "constant")


def const_of(cx, i, n):
    for c in cx.F["consts"]:
        if c.get("self_name") == i["path"] and c["name"] == n:
            return (ints_of(c["v"]) or [None])[0]
    return None


# ------------------------------------------------------------------------------- C16
DENY = [(re.compile(p), w) for p, w in (
    (r"^std::env::", "the environment"),
    (r"^std::(fs|net|os)::|^std::io::(stdin|Stdin)|^std::io::stdio::(stdin|Stdin)", "input/output"),
    (r"^std::process::", "the process"),
    (r"^std::thread::", "the thread"),
    (r"^(rand|getrandom|fastrand|uuid)::|^std::random|random::Random", "randomness"),
    (r"RandomState::new", "randomness"),
    (r"::(SystemTime|Instant)::(now|elapsed)$", "the clock"),
    (r"^chrono::.*::(now|today)$", "the clock"),
    (r"^std::sync::atomic::|^core::sync::atomic::", "shared mutable state"),
    (r"^std::sync::(Mutex|RwLock|OnceLock|LazyLock)|^std::sync::(poison|once|lazy)", "shared mutable state"),
    (r"^(std|core)::cell::", "shared mutable state"),
    (r"^(std|core|alloc)::alloc::", "the allocator"),
    (r"^std::backtrace::|Location::caller", "the call site"),
)]
HASHED = re.compile(r"\bHash(Map|Set)\b|hash_(map|set)::|\bRandomState\b")
ITER = {"iter", "keys", "values", "into_iter", "drain", "into_keys", "into_values", "iter_mut", "values_mut"}


def calls_of(f):
    for b in f["blocks"]:
        t = b["t"] if "t" in b else b.get("term")
        if t and t[0] == "call" and isinstance(t[1], dict):
            yield t[1], t[-1]


def denied(cx, c):
    n = c.get("rdef") or c.get("def") or ""
    d = c.get("def") or ""
    for rx, w in DENY:
        if rx.search(n) or rx.search(d):
            return w, n
    if n.split("::")[-1] in ITER and (HASHED.search(n) or HASHED.search(d) or any(HASHED.search(tinfo(a).get("name") or "") for a in c.get("args") or [])):
        return "hash iteration order", n
    return None


def ctor(f):
    """constructors, defaults and conversions: functions that return a local struct or enumeration by value"""
    i = tinfo(f["locals"][0])
    return i.get("k") == "adt" and i.get("local") and not f.get("derived")


def codec_roots(cx):
    seen = set()
    for it in cx.items.values():
        for k, fs in (("encoder", it.enc), ("decoder", it.dec), ("length", it.len)):
            for f in fs:
                if f["id"] not in seen:
                    seen.add(f["id"])
                    yield ("constructor" if k == "decoder" and not f.get("impl_trait") and "Result" in (tinfo(f["locals"][0]).get("name") or "") else k), f
    for nm, p in cx.pdus.items():
        for k, w in (("encoder", "serialize"), ("decoder", "deserialize"), ("decoder", "deserialize_without_header"), ("length", "calculate_length")):
            f = p.get(w)
            if f is not None and f["id"] not in seen:
                seen.add(f["id"])
                yield k, f
    for f in cx.C.fns:
        if f["id"] in seen or f.get("kind") == "Closure":
            continue
        if f["name"] == "finalize":
            yield "encoder", f
        elif f["name"] == "deserialize_body":
            yield "constructor", f
        elif ctor(f) or (f["argc"] and f.get("has_self")):
            seen.add(f["id"])
            yield "constructor", f


TS = ("timestamp",)


def reached(v):
    """the leaves of a value that some input selects"""
    out = []

    def go(x, conds):
        if x.op == "sw" and len(conds) < 12:
            for cs, y in branches(x):
                go(y, conds + tuple(cs))
        elif x not in out:
            w = witness(lambda e: True, conds, conds) if conds else (True,)
            if w and w[0]:
                out.append(x)
    go(v, ())
    return out


def clock_paths(n, ty, path="", depth=0, out=None, ops=("clock",)):
    """paths of the leaves of value n that depend on the clock (or another source, by its node kind)"""
    if out is None:
        out = []
    if n is None or not has_op(n, ops):
        return out
    i = tinfo(ty)
    vs = i.get("variants")
    if n.op == "agg" and vs and depth < 8:
        vi = n.a[0] or 0
        fs = vs[vi]["fields"]
        if len(fs) == len(n.a[1]):
            for f, x in zip(fs, n.a[1]):
                clock_paths(x, f["ty"], f"{path}.{f['name']}", depth + 1, out, ops)
            return out
    if n.op == "sw" and depth < 12:
        if has_op(n.a[0], ops):
            out.append(path or "value")
            return out
        for _, x in branches(n):
            clock_paths(x, ty, path, depth + 1, out, ops)
        return out
    out.append(path or "value")
    return out


def c16(cx, R):
    R.rule("no value emitted, returned or stored by an encoder, decoder, length function or record constructor depends on the clock, except the timestamp field of a newly constructed header; no function "
           "reachable from them calls into the environment, I/O, randomness, thread identity, shared mutable state or pointer addresses")
    byid = {f["id"]: f for f in cx.F["fns"]}
    # statics with state
    st = {s["path"]: s for s in cx.F["statics"] if s.get("mut") or s.get("freeze") is False}
    for s in st.values():
        pass
    bad = {}
    for f in cx.F["fns"]:
        if f["crate"] != "open_dis_rust":
            continue
        for c, ln in calls_of(f):
            d = denied(cx, c)
            if d and d[0] != "the clock":
                bad.setdefault(f["id"], []).append((d, c, ln))
    callees = {}

    def edges(i):
        if i not in callees:
            f = byid.get(i)
            callees[i] = sorted({c["inst"] for c, _ in calls_of(f) if c.get("inst") is not None} | set(closures(f))) if f else []
        return callees[i]

    def closures(f):
        for b in f["blocks"]:
            for s in b.get("s") or b.get("stmts") or []:
                yield from _closure_ids(s)

    def _closure_ids(s):
        if isinstance(s, list):
            if len(s) >= 2 and s[0] == "closure" and isinstance(s[1], int):
                i = tinfo(s[1]).get("inst")
                if i is not None:
                    yield i
            for x in s:
                yield from _closure_ids(x)

    reported = set()
    for kind, f in codec_roots(cx):
        obj = f["key"]
        # 1. call graph
        seen, par, todo = {f["id"]}, {}, [f["id"]]
        while todo:
            i = todo.pop()
            if i in bad:
                for (w, n), c, ln in bad[i]:
                    g = byid[i]
                    if (i, n) in reported:
                        continue
                    reported.add((i, n))
                    chain = [g["key"]]
                    j = i
                    while j in par and len(chain) < 8:
                        j = par[j]
                        chain.append(byid[j]["key"])
                    R.viol(f"{g['key']}/{n}", where(g, ln), f"{g['key']} calls {n}: its result depends on {w}; called from {' <- '.join(chain)}", obj, kind)
            for j in edges(i):
                if j not in seen:
                    seen.add(j)
                    par[j] = i
                    todo.append(j)
        # 2. values
        r = cx.run(f)
        if r.ret is None:
            R.undecided(f"{obj}", r.err or "not analysable", kind)
            continue
        hit = False
        for e in r.events:
            if e.kind == "static":
                p = e.data if isinstance(e.data, str) else None
                s = next((s for q, s in st.items() if p is None or q == p or str(p).endswith(q)), None)
                if s is not None:
                    R.viol(f"{obj}/static", where(f, e.line), f"{obj} uses the mutable global {s['path']}", obj, kind)
                    hit = True
            elif e.kind == "addr":
                R.viol(f"{obj}/address", where(f, e.line), f"{obj} turns an address into a number", obj, kind)
                hit = True
        # the room a vector or buffer happens to have is no part of its value: equal values need not share it
        spare = []
        if r.toks is not None and any(tok_clock(t, ("cap",)) for t in r.toks):
            spare.append("the octets written or read")
        if kind != "constructor":
            spare += [f"result {p}" for p in clock_paths(r.ret, f["locals"][0], ops=("cap",))]
            if r.selfcell is not None:
                spare += [f"field {p}" for p in clock_paths(r.final_self(), r.selfv.ty, ops=("cap",))]
        for p in spare:
            R.viol(f"{obj}/capacity/{p}", where(f), f"{obj}: {p} depends on the spare capacity of a vector or buffer, which two equal values need not share", obj, kind)
            hit = True
        if not any(e.kind == "clock" for e in r.events):
            if not hit:
                R.ok("no clock, no state", obj, kind)
            continue
        n = []
        if kind != "constructor":
            if r.toks is not None and any(tok_clock(t) for t in r.toks):
                n.append("the octets written or read")
        for p in clock_paths(r.ret, f["locals"][0]):
            if kind == "constructor" and (p.endswith(".timestamp") or f["name"] == "calculate_dis_timestamp"):
                continue
            if is_timestamp_fn(f):
                continue
            n.append(f"result {p}")
        if r.selfcell is not None:
            for p in clock_paths(r.final_self(), r.selfv.ty):
                if not (p.endswith(".timestamp") and kind == "constructor"):
                    n.append(f"field {p}")
        for p in n:
            R.viol(f"{obj}/clock/{p}", where(f), f"{obj}: {p} depends on the clock", obj, kind)
        if not n and not hit:
            R.ok("the clock reaches nothing but a new header's timestamp", obj, kind)


def is_timestamp_fn(f):
    """a function that computes a timestamp: an integer and nothing else, from the clock alone"""
    return f["argc"] == 0 and tinfo(f["locals"][0]).get("k") == "int"


def tok_clock(t, ops=("clock",)):
    if t[0] in ("put", "get"):
        return any(isinstance(x, N) and has_op(x, ops) for x in t[1:])
    for x in t[1:]:
        if isinstance(x, N) and has_op(x, ops):
            return True
        if isinstance(x, (tuple, list)):
            for y in x:
                if isinstance(y, tuple) and (tok_clock(y, ops) if y and isinstance(y[0], str) else any(isinstance(z, (tuple, list)) and any(isinstance(q, tuple) and tok_clock(q, ops) for q in z) for z in y)):
                    return True
    return False


# ------------------------------------------------------------------------------- C21
def c21(cx, R):
    R.rule("the compiler's trait selection proves Send and Sync for every exported type, none has a lifetime parameter or interior mutability; no unsafe block, function or impl in the crate; "
           "as_any of every PDU returns the PDU itself")
    for a in cx.F["adts"]:
        if not a.get("exported"):
            continue
        w = f"{a['span'][0]}:{a['span'][1]} {a['path']}"
        n = short(a["path"])
        if a.get("generic"):
            R.undecided(f"{n}", "generic type", "type")
            continue
        bad = False
        for tr in ("send", "sync"):
            if a.get(tr) is False:
                R.viol(f"{n}/{tr}", w, f"{a['path']} is not {tr.capitalize()}", a["path"], "type")
                bad = True
        if a.get("lifetimes") and (a["ty"] in cx.items or short(a["path"]) in cx.pdus or n.endswith("Error")):
            R.viol(f"{n}/static", w, f"{a['path']} borrows data: it is not 'static", a["path"], "type")
            bad = True
        if a.get("freeze") is False:
            R.viol(f"{n}/interior-mutability", w, f"{a['path']} has interior mutability", a["path"], "type")
            bad = True
        if not bad:
            R.ok("Send, Sync, 'static, no interior mutability", a["path"], "type")
    for u in cx.F["unsafe_blocks"]:
        sp, exp = u
        R.viol(f"unsafe/{sp[0]}", f"{sp[0]}:{sp[1]}", "unsafe block", sp[0], "unsafe")
    for f in cx.C.fns:
        if f.get("unsafe"):
            R.viol(f"unsafe-fn/{f['key']}", where(f), f"{f['key']} is an unsafe function", f["key"], "unsafe")
    for i in cx.F["impls"]:
        if i.get("unsafe") and not i.get("derived"):
            R.viol(f"unsafe-impl/{i['full']}", f"{i['span'][0]}:{i['span'][1]}", f"unsafe impl {i['full']}", i["full"], "unsafe")
    for s in cx.F["statics"]:
        if s.get("mut") or s.get("freeze") is False:
            R.viol(f"static/{s['path']}", f"{s['span'][0]}:{s['span'][1]} {s['path']}", f"mutable global {s['path']}: {s.get('tname')}", s["path"], "static")
    R.ok(f"{len(cx.C.fns)} functions, {len(cx.F['impls'])} impls, {len(cx.F['statics'])} statics examined for unsafe code and global state", None, "crate")
    for nm, p in cx.pdus.items():
        f = p.get("as_any")
        if f is None:
            R.undecided(f"{nm}.as_any", "not found", "pdu")
            continue
        r = cx.run(f)
        if r.ret is None:
            R.undecided(f"{nm}.as_any", r.err, "pdu")
            continue
        v = r.ret
        if v.op == "ref" and v.a[0] == r.selfcell and not v.a[1]:
            R.ok("as_any is the PDU itself", nm, "pdu")
        elif any(x.op == "ref" and (x.a[0] != r.selfcell or x.a[1]) for x in reached(v)):
            R.viol(f"{nm}.as_any", where(f), f"{nm}::as_any returns a reference to something other than the PDU: a downcast to {nm} fails", nm, "pdu")
        elif all(x.op == "ref" for x in reached(v)):
            R.ok("as_any is the PDU itself", nm, "pdu")
        else:
            R.undecided(f"{nm}.as_any", show(v)[:120], "pdu")
