#!/usr/bin/env python3
"""mkseed.py ID...: (re)creates /verif/seeded/<id> from tools/seeds/<id>.py

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (C++)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/seeds") if f.endswith(".py")):
    g = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), g)
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    a, b = t + "/a", t + "/b"
    for f, old, new in g["EDITS"]:
        for x in (a, b):
            os.makedirs(os.path.dirname(x + "/" + f), exist_ok=True)
            if not os.path.exists(x + "/" + f): shutil.copy("/repo/" + f, x + "/" + f)
        s = open(b + "/" + f).read()
        assert s.count(old) == 1, (i, f, old, s.count(old))
        open(b + "/" + f, "w").write(s.replace(old, new))
    p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    shutil.rmtree(t)
    open(d + "/demo.cc", "w").write('#include "demo.h"\n' + g["DEMO"].lstrip("\n"))
    for x in ("demo.h", "demo.sh"): shutil.copy(V + "/tools/demo/" + x, d + "/" + x)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    print(i, "ok" if r.returncode == 0 else "DOES NOT APPLY")
