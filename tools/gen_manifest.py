#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "abstract interpretation of MIR to value graphs; "
CLAIMS = {
    "C01": ("size of the emitted token sequence equal to the declared length, as normal forms", "for all values of all encoders; collections smaller than 2^48 elements"),
    "C02": ("the decoder's reads bound in order to the encoder's writes; result equal to the encoded value field by field", "all records and both headers; values whose counts agree with their contents"),
    "C03": ("the PDU decoder's reads bound to the octets of serialize, both entry points; body fields compared", "all PDUs; fields the decoders do not read are listed findings"),
    "C04": ("header octets of every encode compared with the caller's header", "for all previous header values of all PDUs"),
    "C05": ("emitted and accepted type and family codes against the frozen table; pairwise distinct", "all PDU types"),
    "C06": ("result of each decoder with the type octet fixed to any foreign number; header of the result against the received one", "all PDUs, all headers"),
    "C07": ("path conditions of every Ok and Err leaf against the size form", "for all sizes; collections smaller than 2^48 elements"),
    "C08": ("effect analysis of encoders on the caller's buffer", "all encoders, all error paths of PDU encodes"),
    "C09": ("emitted octet sequence as (width, field expression) list against the frozen layout table", "all PDUs, records, headers"),
    "C10": ("decision tables of all enumeration decoders against discriminants and default; no narrowing in encoders", "all enumerations, all wire numbers"),
    "C11": ("discriminants, flags, constants and defaults of the compiled crate against the frozen code-point table", "all enumerations, flag sets and constants"),
    "C12": ("reachability of panic sites (overflow, index, slice, unwrap) in the inlined value graph of encoders", "all encoders and length functions"),
    "C13": ("reachability of panic sites and of reads past the end in decoders; every read of a PDU decoder covered by a remaining check", "all decoders, all octet sequences; four PDU types are listed findings"),
    "C14": ("allocation requests of decoders as forms over octets read, against the octets present", "all decoders"),
    "C15": ("dependence of reads and results of record decoders on the number of octets in the buffer", "all record decoders; two are listed findings"),
    "C16": ("taint and effect analysis from clock, environment, I/O, addresses, statics to results of the codec", "all public codec functions"),
    "C17": ("difference of the PDU value before and after encode; second encode", "all PDUs and record encoders"),
    "C18": ("value graphs of the status accessors evaluated for all 256 octets and all field values", "all accessors"),
    "C19": ("linear form, interval and per-second evaluation of the timestamp's value graph", "every minute and second of an hour, leap seconds"),
    "C20": ("argument-to-field flow of constructors, accessors, error constructors, finalize, flag conversions", "all of them"),
    "C21": ("compiler trait selection for Send/Sync/'static of exported types; unsafe and interior-mutability search; as_any target", "all exported types"),
    "C22": ("maintained length fields against the size form of the part", "parts that fit the field; the decoder's repeat count is the value read"),
    "C23": ("vector operations as quotients of polynomials over the reals, with square roots as algebraic atoms", "all operations; up to rounding"),
    "C24": ("value graphs of new() and default() against the neutral values", "all PDUs"),
    "C25": ("compiler-generated implementations recognised; hand-written ones: each field's influence on the result", "all PartialEq and Clone implementations"),
    "C26": ("value graph of the type peek evaluated for all type octets and lengths, against the header decoder's", "all octet buffers; lengths at and around the header size"),
    "C27": ("value graphs of Default implementations against the neutral values", "all records and headers"),
    "C28": ("normal forms of the size helpers and constants compared", "all sizes below 2^40"),
    "C29": ("reads, results and acceptance conditions of the two entry points compared after removing 12 octets", "all PDUs, all octet sequences"),
    "C30": ("dependence of reads, results and indices of decoders on the contiguous piece", "all decoders"),
    "C31": ("error leaves of the decoders' value graphs: carried sizes against the octets consumed; Display and source of every error variant", "all PDU decoders, all error variants"),
    "C32": ("trip counts, per-round reads and first-round fixpoints of all loops in the interpreted MIR; calls that come back with the same arguments", "all encoders, length functions, decoders"),
}
PENDING = {}
checks = []
for pid, (tech, note) in sorted(CLAIMS.items()):
    checks.append(dict(property=pid, quick_cmd=f"VERIF_TIER=quick ./check {pid}", thorough_cmd=f"VERIF_TIER=thorough ./check {pid}",
                       evidence_file=f"evidence/{pid}.json", technique=T + tech, level="other",
                       level_note="Static decision over all inputs (" + note + "). Trusts rustc's MIR, the models of core/alloc/bytes/chrono functions in lib/models.py "
                                  "and the engine; constructs it cannot decide are listed as undecided in the evidence and raise no alarm."))
na = []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)
    if p["id"] not in CLAIMS:
        na.append(dict(property=p["id"], reason=PENDING.get(p["id"], "check under construction")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Static analysis only: a rustc driver writes the type-checked, monomorphised MIR of /repo's current source; lib/ interprets it abstractly. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
