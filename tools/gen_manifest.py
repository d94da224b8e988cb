"""writes MANIFEST.json from the plans of stages.py and the properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import stages
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in stages.PLAN:
        t, n = stages.NOTES.get(pid, stages.NOTES["*"])
        checks.append(dict(property=pid, quick_cmd="python3 tools/check.py %s quick" % pid, thorough_cmd="python3 tools/check.py %s thorough" % pid, technique=t, level="model_checking", level_note=n))
    else: na.append(dict(property=pid, reason="no check yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: every check uses the public interface of the crate", source_commits=[]),
         notes="TLA+ specification in spec/, checked with TLC; recordings of the real VM (harness/) are validated against it. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
