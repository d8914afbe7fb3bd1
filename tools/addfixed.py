import json, sys  # addfixed.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json
p = '/verif/known_findings.json'
d = json.load(open(p))
d["findings"].append({"status": "fixed", "property": sys.argv[1], "commit": sys.argv[2], "what": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
json.dump(d, open(p, "w"), indent=1)
