#!/usr/bin/env python3
"""Developer helper: which repository units does a harness need?  tus.py h_x.cpp [flags]"""
import os, subprocess, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib
ctx = vlib.Ctx("T00", "quick", 1)
flags = vlib.BASE_FLAGS + [a for a in sys.argv[2:]] + vlib.include_flags()
import concurrent.futures as cf
tus = vlib.all_repo_tus()
srcs = [os.path.join(vlib.VERIF, "harness", sys.argv[1])] + [os.path.join(vlib.REPO, t) for t in tus]
with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(lambda s: ctx._compile(s, flags), srcs))
for s, (o, e) in zip(srcs, res):
    if not o: print(s, e[-3000:]); sys.exit(1)
def syms(o, what):
    out = subprocess.run(["nm", "-C" if False else "-P", o], capture_output=True, text=True).stdout
    u, d = set(), set()
    for l in out.splitlines():
        p = l.split()
        (u if p[1] == "U" else d if p[1] in "TBDRVWu" else set()).add(p[0])
    return u, d
info = {s: syms(o, 0) for s, (o, _) in zip(srcs, res)}
need, have = [srcs[0]], set()
todo = [srcs[0]]
while todo:
    s = todo.pop()
    u = info[s][0]
    for t in srcs[1:]:
        if t in need: continue
        strong = info[t][1]
        if u & strong:
            # skip when someone already chosen defines it
            miss = {x for x in u & strong if not any(x in info[n][1] for n in need)}
            if miss:
                need.append(t); todo.append(t)
print([os.path.relpath(n, vlib.REPO) for n in need[1:]])
