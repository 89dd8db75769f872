#!/usr/bin/env python3
"""Writes the frozen reference tables from the current tree (run once, on the reviewed tree)."""
import json, os, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def go():
    import base, facts, tables
    F = json.load(open(sys.argv[2])) if len(sys.argv) > 2 else facts.extract()[0]
    cx = base.Ctx(F)
    what = sys.argv[1]
    if what in ("layouts", "all"):
        import rules_wire
        tables.store("layouts", rules_wire.gen_layouts(cx))
    if what in ("codes", "all"):
        import rules_facts
        tables.store("codes", rules_facts.gen_codes(cx))
    if what in ("ctors", "all"):
        import rules_sem
        tables.store("ctors", rules_sem.gen_ctors(cx))


t = threading.Thread(target=go)
t.start()
t.join()
