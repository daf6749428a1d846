"""run.py CXX [--tier quick|thorough] [--seed N] | --replay FILE [CXX]"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core


def registry():
    import importlib

    reg = {}
    for mod in ("wirechecks", "errorchecks", "statechecks", "toolchecks", "envchecks", "relchecks", "usechecks"):
        try:
            m = importlib.import_module(mod)
        except ModuleNotFoundError as e:
            if e.name != mod:
                raise
            continue
        for c in m.CHECKS:
            reg[c.id] = c
    return reg


def self_test(reg):
    """the reference model against hand-computed messages; no code under test"""
    import selftest

    print("self test passed: %d facts about the reference model, %d checks registered" % (selftest.run(), len(reg)))
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ids, rep = [], None
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            rep = next(it)
        else:
            ids.append(a)
    reg = registry()
    if "--self-test" in ids:
        return self_test(reg)
    if rep is not None:
        import json

        return core.replay(reg[json.load(open(rep))["property"]](), rep)
    if not ids or any(i not in reg for i in ids):
        print("usage: check CXX [--tier quick|thorough] [--seed N] | --replay FILE")
        return 3
    rc = 0
    for i in ids:
        rc = max(rc, core.run(reg[i](), tier, seed))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
