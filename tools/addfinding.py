"""addfinding.py PROPERTY fixed "text" -- appends an entry to known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))["findings"]
d.append({"property": sys.argv[1], "status": sys.argv[2], "what": sys.argv[3]})
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(json.dumps(x) for x in d) + "\n]}\n")
