#!/usr/bin/env python3
"""plant.py ID: builds seeded/ID from seeded_src definitions (tools/plants.py)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("plants", f"{V}/tools/plants.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)

def make(b):
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in b["edits"]:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    if b.get("kit", True):
        for f in os.listdir(f"{V}/tools/demokit"):
            shutil.copy(f"{V}/tools/demokit/{f}", d)
        open(f"{d}/demo.rs", "w").write(b["demo"])
    for name, text in b.get("files", {}).items():
        open(f"{d}/{name}", "w").write(text)
    if os.path.exists(f"{d}/demo.sh"): os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)

want = sys.argv[1:]
for b in m.PLANTS:
    if not want or b["id"] in want:
        make(b); print("made", b["id"])
