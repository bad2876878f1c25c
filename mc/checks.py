"""Registry of the checks and the command line:  python mc/checks.py C01 [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = {}
for _m, _ids in (("c_graph", "C01 C02 C03"), ("c_method", "C04 C05 C06 C07 C08"), ("c_constraint", "C09 C10"),
                 ("c_cluster", "C11 C12 C13 C14"), ("c_config", "C15 C16 C17"), ("c_geom", "C18 C19 C20 C21 C22"),
                 ("c_text", "C23"), ("c_show", "C24")):
    for _i in _ids.split():
        MODULES[_i] = _m


def module(prop):
    core.setup_import()
    return importlib.import_module(MODULES[prop])


def harnesses(prop):
    return module(prop).CHECKS[prop]["harnesses"]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        chk = module(prop).CHECKS[prop]
    except Exception:
        # the code under test cannot even be imported, or its public names are gone
        import traceback
        msg = traceback.format_exc(limit=-8)
        path = core.write_replay(prop, core.fn_harness("import", "", None, None), None, msg, None)
        print(msg)
        print("VIOLATION property={0} replay={1}".format(prop, path), flush=True)
        return 1
    return core.run_check(prop, chk["harnesses"], tier, seed, chk.get("assumptions", []), chk["rule"], only=only)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
