"""tools/kf.py known PROP KEY WHAT | fixed PROP COMMIT WHAT : append an entry to known_findings.jsonl (by hand only)."""
import json, os, sys
k, prop, key, what = sys.argv[1:5]
e = {"status": k, "property": prop}
if k == "known":
    e.update(key=key, what=what)
else:
    e.update(commit=key, what=what, text=f"fixed: property={prop} {key} {what}")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl"), "a") as f:
    f.write(json.dumps(e, ensure_ascii=False) + "\n")
