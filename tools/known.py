"""known.py add <prop> <key> <what> [count] | fixed <prop> <commit> <what>: edit known_findings.json by hand (never called by a check)."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
a = sys.argv[1:]
if a[0] == "add":
    e = {"property": a[1], "status": "known", "key": a[2], "what": a[3]}
    if len(a) > 4:
        e["count"] = int(a[4])
    d = [x for x in d if not (x["property"] == a[1] and x.get("key") == a[2])] + [e]
elif a[0] == "fixed":
    d.append({"property": a[1], "status": "fixed", "commit": a[2], "what": a[3],
              "line": "fixed: property=%s %s %s" % (a[1], a[2], a[3])})
d.sort(key=lambda x: (x["status"], x["property"], x.get("key", "")))
json.dump(d, open(P, "w"), indent=1)
open(P, "a").write("\n")
