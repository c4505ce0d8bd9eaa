"""usage: mkseed.py ID PROPERTY spec.py -- spec.py defines EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import json, pathlib, runpy, shutil, subprocess, sys, tempfile
sid, pid, spec = sys.argv[1:4]
s = runpy.run_path(spec)
w = pathlib.Path(tempfile.mkdtemp(prefix="mkseed"))
subprocess.run(["git", "-C", "/repo", "worktree", "list"], check=True, stdout=subprocess.DEVNULL)
subprocess.run(["git", "clone", "-q", "/repo", str(w / "r")], check=True)
for f, old, new in s["EDITS"]:
    p = w / "r" / f
    t = p.read_text()
    assert t.count(old) == 1, (f, t.count(old), old)
    p.write_text(t.replace(old, new))
d = pathlib.Path("/verif/seeded") / sid
d.mkdir(parents=True, exist_ok=True)
diff = subprocess.run(["git", "-C", str(w / "r"), "diff"], check=True, stdout=subprocess.PIPE, text=True).stdout
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps({"property": pid, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
(d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
(d / "demo.sh").write_text('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
export DEMO_SCRATCH=$scratch REPO=$PWD
cd "$scratch" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
shutil.rmtree(w)
print(sid, len(diff.splitlines()), "diff lines")
