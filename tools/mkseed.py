"""mkseed.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source). Writes seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    d = os.path.join(V, "seeded", ID); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in EDITS:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(a) == 1, (ID, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    json.dump({"property": PROPERTY, "needs": NEEDS, "what_it_breaks": BREAKS}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write("import sys\n_exit = sys.exit\nsys.exit = lambda v=0: _exit(int(bool(v)))\n" + DEMO.lstrip())
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]: make(**s); print(s["ID"])
