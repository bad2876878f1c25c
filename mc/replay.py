"""Re-execute one counterexample on the real code:  python mc/replay.py [--prefix] FILE

Exit 1: it fails again; exit 0: it passes.  --prefix first runs the cases that preceded it
in its worker, for failures that depend on earlier calls."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import checks


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    rec = json.load(open(args[0]))
    core.setup_import()
    if rec["item"] is None:
        print("no single case; run the check again: " + rec["message"])
        return 1
    h = [h for h in checks.harnesses(rec["property"]) if h.name == rec["harness"]][0]
    ctx = core.Ctx()
    w = rec.get("enumeration")
    if "--prefix" in sys.argv and w:
        block = getattr(h, "block", 1)
        for i, item in enumerate(h.items(w["tier"])):
            if i >= w["index"]:
                break
            if (i // block) % w["nproc"] == w["shard"]:
                core.run_item(h, item, ctx)
    msg = core.run_item(h, rec["item"], ctx)
    if msg is None:
        print("passes")
        return 0
    print("fails: " + msg)
    return 1


if __name__ == "__main__":
    sys.exit(main())
