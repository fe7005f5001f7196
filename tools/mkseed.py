#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ for every entry of SEEDS in SPEC.py (id, property, edits=[(file, old, new)], demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            # the removed lines must be the original repository's
            a = t[: t.index(old)].count("\n") + 1
            b = a + old.rstrip("\n").count("\n")
            bl = subprocess.run(["git", "-C", w + "/r", "blame", "-s", "-L", f"{a},{b}", f], stdout=subprocess.PIPE, text=True, check=True).stdout
            if not all(x.startswith("^8d99f03") or x.startswith("8d99f03") for x in bl.splitlines()):
                print(s["id"], "note: context includes lines of fixes:\n" + bl)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", s["id"])
    finally:
        shutil.rmtree(w)
