import importlib, json, os, resource, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["rules_size", "rules_wire", "rules_sem", "rules_facts", "rules_panic", "rules_more", "rules_extra", "rules_term"]


def known():
    """committed findings: 'finding: property=<id> key=<key> <what>' and 'fixed: property=<id> <commit> <what>'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                w = ln.split(None, 3)
                pid, key = w[1].split("=", 1)[1], w[2].split("=", 1)[1]
                out.setdefault(pid, {})[key] = w[3] if len(w) > 3 else ""
    return out


def run(argv):
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY if False else 512 * 1024 * 1024, resource.getrlimit(resource.RLIMIT_STACK)[1])) \
        if resource.getrlimit(resource.RLIMIT_STACK)[1] in (-1, resource.RLIM_INFINITY) else None
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def body():
        try:
            res.append(main(argv))
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            traceback.print_exc()
            res.append(2)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    return res[0]


def main(argv):
    t0 = time.time()
    facts_file = None
    args = list(argv)
    if "--facts" in args:
        i = args.index("--facts")
        facts_file = args[i + 1]
        del args[i:i + 2]
    if not args:
        print("usage: check <property id>")
        return 2
    pid = args[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import facts as FX
    try:
        if facts_file:
            raw = json.load(open(facts_file))
            info = dict(sha256="(given)", repo=facts_file, extract_s=0)
        else:
            raw, info = FX.extract()
    except FX.ToolError as e:
        print(f"TOOL-ERROR: {e}")
        return 2
    import base, ev
    ev.SEED = seed
    ev.EFFORT = 8 if tier == "thorough" else 1
    cx = base.Ctx(raw)
    floors(cx)
    fn = None
    for m in MODULES:
        try:
            M = importlib.import_module(m)
        except ModuleNotFoundError:
            continue
        fn = getattr(M, pid.lower(), None) or fn
    if fn is None:
        print(f"no rule for {pid}")
        return 2
    R = base.Report(pid)
    fn(cx, R)
    if R.done + len(R.viols) == 0:
        print("TOOL-ERROR: nothing was analysed")
        return 2
    kn = known().get(pid, {})
    new = {k: v for k, v in R.viols.items() if k not in kn}
    old = {k: v for k, v in R.viols.items() if k in kn}
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={pid} {k} {kn[k]}")
    write_evidence(pid, tier, seed, R, info, cx, new, old, time.time() - t0)
    for k in sorted(R.undec)[:20]:
        print(f"undecided: {k}: {str(R.undec[k])[:200]}")
    print(f"{pid}: {R.done} obligations discharged, {len(R.undec)} undecided, {len(old)} listed findings, {len(new)} violations ({time.time() - t0:.1f}s)")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violations.json")
        with open(rp, "w") as f:
            json.dump([dict(key=k, where=w, what=m) for k, (w, m) in sorted(new.items())], f, indent=1)
        for k, (w, m) in sorted(new.items())[:30]:
            print(f"  {k}\n    at {w}\n    {m[:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def floors(cx):
    """the analysis found what it is meant to analyse"""
    import facts as FX
    n_pdu = sum(1 for p in cx.pdus.values() if "serialize" in p and "deserialize" in p)
    n_enc = sum(1 for it in cx.items.values() if it.enc)
    n_dec = sum(1 for it in cx.items.values() if it.dec)
    if n_pdu < 50 or n_enc < 120 or n_dec < 350:
        raise FX.ToolError(f"only {n_pdu} PDUs, {n_enc} encoded and {n_dec} decoded types were found")


def write_evidence(pid, tier, seed, R, info, cx, new, old, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    total = sum(R.counts.values())
    cov = dict(
        explanation="Static analysis of the MIR of /repo's current source (rustc facts driver, whole-function value graph). Each obligation is one rule "
                    "instance on one construct; discharged = shown for all values by equality of normal forms or complete enumeration of finite domains; "
                    "undecided = neither shown nor refuted (no alarm).",
        rules=R.rules,
        obligations=total,
        discharged=R.done,
        violations=len(new),
        listed_findings=len(old),
        undecided=len(R.undec),
        undecided_list=[f"{k}: {str(v)[:160]}" for k, v in sorted(R.undec.items())[:40]],
        by_kind=dict(R.counts),
        constructs={k: len(v) for k, v in R.objects.items()},
        functions_in_crate=len(cx.C.fns),
        functions_analysed=len(cx.C._cache),
        pdus=len(cx.pdus),
        encoded_types=sum(1 for i in cx.items.values() if i.enc),
        decoded_types=sum(1 for i in cx.items.values() if i.dec),
        facts_sha256=info["sha256"],
        extract_seconds=info["extract_s"],
        samples=(R.samples[:: max(1, len(R.samples) // 12)])[:12],
        reported=[dict(key=k, where=w, what=m[:400]) for k, (w, m) in sorted(list(new.items()) + list(old.items()))[:60]],
    )
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(wall, 2)), f, indent=1)
