#!/usr/bin/env python3
"""proof_only.py PATCH|- [UNIT...]: the verifier's verdict alone on a scratch copy of /repo with a
patch applied (development aid; never used by a check)."""
import os, sys, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = tempfile.mkdtemp(prefix="po")
for c in ("cinereus", "hotmeal", "hotmeal-server"):
    shutil.copytree("/repo/" + c, w + "/" + c, ignore=shutil.ignore_patterns("target", "node_modules"))
if sys.argv[1] != "-":
    subprocess.run(["git", "apply", "--directory=", os.path.abspath(sys.argv[1])], cwd=w, check=True, env=dict(os.environ, GIT_CEILING_DIRECTORIES=w))
os.environ["VERIF_REPO"] = w
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import check, units
ex = os.path.join(check.BUILD, "extract/release/contract-extract")
for u in sys.argv[2:] or units.UNITS:
    r = check.Unit(u, ex, w)
    print(f"  {u}: verified {r.verified} errors {r.errors} {'OK' if r.ok else ''} {('UNDECIDED ' + r.undecided.splitlines()[0][:300]) if r.undecided else ''}")
    for f in r.failed:
        print("     ", ",".join(f["tags"]) or "-", f["fn"], f["loc"], "|", f["message"], "|", f["text"][:90])
    if os.environ.get("RAW") and r.undecided: print(r.undecided)
shutil.rmtree(w)
