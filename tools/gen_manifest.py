"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "mc"))
TECH = {"C01": "explicit-state BFS over edit histories of the real graph against a dict model",
        "C02": "complete enumeration of small valued digraphs, derivations and follow-up edits",
        "C03": "complete enumeration of small digraphs and insertion orders against transitive closure",
        "C04": "complete enumeration of acyclic wirings x change scripts, plus BFS over histories, against topological evaluation",
        "C05": "complete enumeration of method addition sequences from a full menu, plus BFS",
        "C06": "complete enumeration of removals from all small wirings, plus BFS over histories",
        "C07": "enumeration of every fault position in every script, invalid requests in every state",
        "C08": "complete enumeration of typed operands and multi-valued alternatives",
        "C09": "explicit-state BFS to closure of constraint graph histories against a dict model",
        "C10": "complete enumeration of lattice triplets against exact integer geometry",
        "C11": "complete enumeration of cluster pairs and triples against constraint sets",
        "C12": "complete enumeration of cluster pairs against constraint sets",
        "C13": "complete enumeration of clusters and sizes against constraint sets",
        "C14": "complete enumeration of pairs of relations over typed points",
        "C15": "complete enumeration of lattice configuration pairs and iteration orders against exact congruence",
        "C16": "complete enumeration of lattice merges, iteration orders and merge chains against exact rigid motions",
        "C17": "enumeration of all operation histories over a pool of configurations",
        "C18": "complete enumeration of lattice figures against exact rational geometry",
        "C19": "complete enumeration of lattice triplets and placements against exact integer geometry",
        "C20": "complete enumeration of operands, shapes and small matrices against defining formulas",
        "C21": "complete enumeration of pairs of lattice coordinate systems against complex arithmetic",
        "C22": "complete enumeration of magnitudes and tolerances around every boundary against exact fractions",
        "C23": "differential enumeration of all histories with and without text forms and debug logging",
        "C24": "complete enumeration of small objects of every class and short histories, words and numbers of their texts against their content"}
NOTE = "Exhaustive within the bounds of the evidence file on the real code (no sampling, no separate model to drift); says nothing beyond them. Assumes single-threaded use and the listed assumptions of the evidence."
checks = [{"property": p, "quick_cmd": "./check.sh {0} quick".format(p), "thorough_cmd": "./check.sh {0} thorough".format(p),
           "evidence_file": "evidence/{0}.json".format(p), "technique": "model checking: " + t, "level": "model_checking", "level_note": NOTE} for p, t in TECH.items()]
json.dump({"version": 1, "setup_cmd": "./check.sh selftest", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks drive the public interface only. Known findings and repairs: known_findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
