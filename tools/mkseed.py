#!/usr/bin/env python3
"""mkseed.py <spec.py>: makes /verif/seeded/<id>/ from a spec with ID, PROP,
NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Go test source)."""
import sys, subprocess, os, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = "/verif/seeded/" + spec["ID"]
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
try:
    for f, old, new in spec["EDITS"]:
        p = w + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
    shutil.rmtree(w, ignore_errors=True)
open(d + "/demo_test.go", "w").write(spec["DEMO"].lstrip())
shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
subprocess.call(["gofmt", "-l", d])
