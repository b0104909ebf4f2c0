#!/usr/bin/env python3
"""run_refactors.py [NAME...]: every check against every edit of refactor_defs.py, in a scratch copy; reports alarms. SIM_RUNS sets the number of runs."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import refactor_defs
# releases a coroutine through the handle after the resume: breaks moving the handle of a running coroutine, which C11 covers and no other property
EXPECTED = {"eager-release": {"C11"}}
bad = 0
for name, edits in refactor_defs.R.items():
    if sys.argv[1:] and name not in sys.argv[1:]:
        continue
    tmp = tempfile.mkdtemp(prefix="refac-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo])
        msg = ""
        for path, old, new, n in edits:
            p = os.path.join(repo, "include/boost/coroutine2", path)
            s = open(p).read()
            if s.count(old) < 1 or (n and s.count(old) != n):
                msg += "edit does not fit %s (%d); " % (path, s.count(old))
            open(p, "w").write(s.replace(old, new))
        if msg:
            print(name, "SKIPPED", msg, flush=True); bad += 1
            continue
        out = []
        env = dict(os.environ, SIM_REPO=repo, VERIF_SEED="1")
        env.setdefault("SIM_RUNS", "12000")
        for c in os.environ.get("REFAC_CHECKS", ",".join("C%02d" % i for i in list(range(1, 17)) + [18]) ).split(","):
            if c == "C18":
                env["SIM_RUNS"] = str(min(1500, int(env["SIM_RUNS"])))
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), c], env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            left = [l for l in r.stdout.splitlines() if "left out" in l]
            if r.returncode == 1 and c in EXPECTED.get(name, ()):
                continue
            if r.returncode or (left and c in ("C01", "C18")):
                out.append("%s rc %d: %s" % (c, r.returncode, "\n".join(left + r.stdout.splitlines()[-5:])))
                if r.returncode == 2: break
        bad += bool(out)
        print("%-36s %s" % (name, "quiet" if not out else "\n   ".join(["NOT QUIET"] + out)), flush=True)
    finally:
        shutil.rmtree(tmp)
print("%d with alarms" % bad)
