"""Frozen reference tables (lib/tables/*.json), written once by tools/gen_tables.py and reviewed."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables")
_c = {}


def load(name):
    if name not in _c:
        with open(os.path.join(D, name + ".json")) as f:
            _c[name] = json.load(f)
    return _c[name]


def store(name, obj):
    os.makedirs(D, exist_ok=True)
    with open(os.path.join(D, name + ".json"), "w") as f:
        json.dump(obj, f, indent=0, sort_keys=True)
        f.write("\n")
