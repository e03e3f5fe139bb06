#!/usr/bin/env python3
"""mutate.py [-k] IDS FILE OLD NEW [FILE OLD NEW ...] | mutate.py IDS -p patch.diff : run checks against a scratch copy with an edit applied.
Development aid only; never used by a registered check."""
import os, shutil, subprocess, sys
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
def main(a):
    ids = a[0].split(",")
    repo = ROOT + "/repo"
    os.makedirs(ROOT, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/target", "/repo/", repo + "/"])
    if not os.path.isdir(ROOT + "/work/target"):
        os.makedirs(ROOT + "/work", exist_ok=True)
        for d in ("target", "tooltarget"):
            shutil.copytree("/verif/.work/" + d, ROOT + "/work/" + d, symlinks=True)
    if a[1] == "-p":
        subprocess.check_call(["git", "-C", repo, "apply", os.path.abspath(a[2])])
    else:
        e = a[1:]
        for f, old, new in zip(e[::3], e[1::3], e[2::3]):
            p = repo + "/" + f
            s = open(p).read()
            if s.count(old) < 1:
                sys.exit(f"not found in {f}: {old}")
            open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=repo, VERIF_WORK=ROOT + "/work")
    return subprocess.call(["python3", "/verif/check.py"] + ids, env=env)
sys.exit(main(sys.argv[1:]))
