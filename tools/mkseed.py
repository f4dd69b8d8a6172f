"""mkseed.py FILE.py: FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)...], DEMO (bash text), FILES={name: text}.
Creates seeded/<ID>/ from a temporary edit of /repo (undone)."""
import sys, os, json, subprocess
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
try:
    for p, a, b in ns["EDITS"]:
        f = "/repo/" + p
        s = open(f).read()
        assert s.count(a) == 1, (p, a, s.count(a))
        open(f, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.sh", "w").write(ns["DEMO"])
for n, t in ns.get("FILES", {}).items(): open(d + "/" + n, "w").write(t)
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
print("wrote", d)
