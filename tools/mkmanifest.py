"""Regenerates properties.jsonl and MANIFEST.json from the data below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "code/latte/"


def P(id, title, statement, over, text, why, files, mech, tech, note, tests=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=[L + f for f in files], mech=mech, tech=tech, note=note)


BASEWHY = "The suite runs a fixed set of example files with known answers; "
ORACLE = ("Trusts the exact Python oracle in lib/geom.py (Fraction arithmetic, independent of LattE, cddlib and 4ti2) and the "
          "bounded sizes of the generated inputs; shows presence of errors, not absence.")



def main():
    sys.path.insert(0, os.path.join(V, "tools"))
    from manifest_data import PROPERTIES, NA
    sys.path.insert(0, os.path.join(V, "lib"))
    import props
    out = []
    for p in PROPERTIES:
        out.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": L + w} for n, w in p["mech"]]}}))
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
    checks, na = [], []
    for p in PROPERTIES:
        i = p["id"]
        if i in props.PROPS:
            checks.append({"property": i, "quick_cmd": "bash run.sh %s --tier quick" % i,
                           "thorough_cmd": "bash run.sh %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": p["tech"],
                           "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "LATTE_VERIF", "enable": "No hooks: the checks drive the unmodified programs and the unmodified library, "
                   "compiled from /repo's working tree.", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All checks are property-based tests with an independent exact oracle; see DESIGN.md. Genuine defects found: known_findings.json."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in out:
        jsonschema.validate(json.loads(l), s)
    print(len(checks), "claimed", [x["property"] for x in na], "not")


if __name__ == "__main__":
    main()
