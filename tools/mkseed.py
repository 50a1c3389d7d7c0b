"""mkseed.py ID: reads /tmp/seed_ID.py (defs: PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) and writes /verif/seeded/ID."""
import json, subprocess, sys, os
for sid in sys.argv[1:]:
    ns = {}
    exec(open(f"/tmp/seeds/{sid}.py").read(), ns)
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in ns["EDITS"]:
        p = "/repo/src/fairseq2/" + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= PYTHONPATH=/opt/vp/plugins
exec /opt/venv/bin/python -W ignore "$here/demo.py"
''')
    os.chmod(d + "/demo.sh", 0o755)
