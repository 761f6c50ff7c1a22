"""run.py <property> <tier> <facts.json>: decide one property."""
import importlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mir import *
from report import Report, ROOT


def main():
    prop, tier, facts = sys.argv[1:4]
    F = load(facts)
    F.repo = os.environ.get("VERIF_REPO", "/repo")
    R = Report(prop, tier)
    R.count_bodies = sum(1 for _ in F.fn_bodies())
    R.note("crate bodies loaded: %d functions and closures" % R.count_bodies)
    m = importlib.import_module("p_" + prop.lower())
    m.run(F, R)
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        known = json.load(f)
    sys.exit(R.finish(known, "other"))


if __name__ == "__main__":
    main()
