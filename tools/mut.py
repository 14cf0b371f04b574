#!/usr/bin/env python3
"""mut.py FILE [ids]: try small changes of the repository in a scratch copy. FILE is a python file defining
M = [(property, source file, old text, new text), ...]; prints for each whether the check of the property reports it."""
import os, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])["M"]
only = [int(x) for x in sys.argv[2:]]
d = tempfile.mkdtemp(prefix="mut_")
try:
    for i, (prop, f, old, new) in enumerate(M):
        if only and i not in only:
            continue
        repo = os.path.join(d, "repo")
        if not os.path.exists(repo):
            shutil.copytree(os.environ.get("MUT_REPO", "/repo"), repo, ignore=shutil.ignore_patterns("_build", ".git"))
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, prop, f, "TEXT FOUND %d TIMES" % s.count(old), flush=True)
            continue
        open(p, "w").write(s.replace(old, new))
        t = time.time()
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), prop], env=dict(os.environ, VERIF_REPO=repo),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(p, "w").write(s)
        why = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "WHY" in l][:2]
        verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")
        print(i, prop, os.path.basename(f), repr(new[:60]), verdict, "%.0fs" % (time.time() - t), why or r.stdout[-300:], flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
