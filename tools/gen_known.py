"""Lists the findings of the current tree for known_findings.txt (run by hand; the checks never write that file)."""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.setrecursionlimit(20000)
import base, rules_wire, rules_panic
cx = base.Ctx(json.load(open(sys.argv[1])))
TEXT = {
    "C03": "the field is written by the encoder but never read back: the PDU decoder leaves it at its default (list and counted-record fields are not decoded)",
    "C15": "the decoder takes every remaining octet as padding instead of the padding its own count implies",
    "C13": "sub-records are read without a remaining-length check: truncated input, or a count field larger than the octets present, panics in bytes::Buf::get_*",
}
for pid, m in (("C03", rules_wire.c03), ("C13", rules_panic.c13), ("C15", rules_wire.c15)):
    R = base.Report(pid)
    m(cx, R)
    for k, (w, msg) in sorted(R.viols.items()):
        print(f"finding: property={pid} key={k} {TEXT[pid]}")
