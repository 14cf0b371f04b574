#!/usr/bin/env python3
"""seedgen.py FILE [ids...]: turn small changes into seeded bugs. FILE defines S = {id: dict(property, file, old, new, needs,
what_it_breaks)}. The demonstration feeds one input to the code, through the driver of the property, and compares the answer
with the one a correct tree gives; the input is searched among those of the check (shortest that tells the two apart)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LIBS = "-lopencv_core -lopencv_imgproc -lopencv_features2d -lopencv_highgui -lopencv_video -lopencv_calib3d -lopencv_flann -lopencv_imgcodecs -ltbb -llz4 -lyaml-cpp -lpthread"
DEMO = """#!/bin/bash
# exit 0: the guarantee holds; non zero: it is broken (or the demonstration does not build)
# Feeds input.txt to the code and compares what it answers with what a correct tree answers.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC="-I$D -I$D/shim -Isrc -Ithird_party $(find src -type d -printf '-I%%p ') -I/usr/include/flann -I/usr/include/eigen3 -I/usr/include/opencv4"
for f in "$D/demo.cpp" %s; do
  echo "g++ -std=c++20 -O1 -w $INC -c $f -o $T/$(basename $f).o"
done | xargs -P 8 -d '\\n' -n 1 bash -c 'eval "$0"'
g++ "$T"/*.o -o "$T/demo" %s
cd "$T"
HOUT="$T/out" timeout 200 ./demo < "$D/input.txt" > "$T/log" 2>&1 || { echo "the code fails"; exit 1; }
diff "$T/out" "$D/expected.txt" > "$T/diff" || { echo "another answer:"; head -c 600 "$T/diff"; exit 1; }
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build(repo, d, tus, exe):
    o = exe + "_o"
    os.makedirs(o)
    inc = "-I%s -I%s/shim -Isrc -Ithird_party $(find src -type d -printf '-I%%p ') -I/usr/include/flann -I/usr/include/eigen3 -I/usr/include/opencv4" % (d, d)
    ps = [subprocess.Popen("g++ -std=c++20 -O1 -w %s -c %s -o %s/%d.o" % (inc, f, o, i), shell=True, cwd=repo)
          for i, f in enumerate([d + "/demo.cpp"] + tus)]
    assert all([p.wait() == 0 for p in ps])
    assert sh("g++ %s/*.o -o %s %s" % (o, exe, LIBS)).returncode == 0


def run(exe, text):
    t = tempfile.mkdtemp()
    try:
        r = subprocess.run([exe], input=text, text=True, cwd=t, env=dict(os.environ, HOUT=t + "/out"), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=200)
        out = open(t + "/out").read().splitlines() if os.path.exists(t + "/out") else []
        return out + ([] if r.returncode == 0 else ["rc %d" % r.returncode])
    except subprocess.TimeoutExpired:
        return ["timeout"]
    finally:
        shutil.rmtree(t)


def apart(a, b, u):
    """the answer of a when it is always the same, and never that of b"""
    x = run(a, u)
    if all(run(b, u) != x for _ in range(3)) and all(run(a, u) == x for _ in range(6)):
        return x
    return None


S = runpy.run_path(sys.argv[1])["S"]
for sid, s in S.items():
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        cap = w + "/cap"
        r = sh([sys.executable, V + "/check.py", s["property"]], env=dict(os.environ, VERIF_CAPTURE=cap))
        assert r.returncode == 0, r.stdout[-2000:]
        caps = [json.loads(l) for l in open(cap)]
        b = [c for c in caps if "build" in c][0]
        mut = w + "/mut"
        shutil.copytree(REPO, mut, ignore=shutil.ignore_patterns("_build"))
        p = os.path.join(mut, s["file"])
        t = open(p).read()
        assert t.count(s["old"]) == 1, (sid, t.count(s["old"]))
        open(p, "w").write(t.replace(s["old"], s["new"]))
        d = "%s/seeded/%s" % (V, sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % mut).stdout)
        shutil.copytree(V + "/harness/shim", d + "/shim")
        shutil.copy(V + "/harness/" + b["build"], d + "/demo.cpp")
        for h in ("hio.hpp", "hcam.hpp", "hscale.hpp"):
            shutil.copy(V + "/harness/" + h, d)
        build(REPO, d, b["tus"], w + "/a")
        build(mut, d, b["tus"], w + "/b")
        done = False
        for c in [c for c in caps if "input" in c]:
            lines = c["input"].splitlines()
            session = s.get("session")          # a state machine: first line parameters, histories start with `session`
            if s.get("slam"):                   # sessions of several lines
                units, n = [], 1
                while n < len(lines):
                    units.append("1\n" + "\n".join(lines[n:n + int(lines[n]) + 1]) + "\n")
                    n += int(lines[n]) + 1
                units = sorted(units, key=len)
            elif session:
                head, body = lines[0], lines[1:]
                starts = [i for i, l in enumerate(body) if l.split()[0] == session] + [len(body)]
                units = ["\n".join([head] + body[i:j]) + "\n" for i, j in zip(starts, starts[1:])]
            else:
                units = ["1\n%s\n" % l for l in lines[1:]]
            # all at once, to see which differ
            x, y = run(w + "/a", c["input"]), run(w + "/b", c["input"])
            if x == y:
                continue
            if s.get("slam"):
                cand = units
            elif session:
                n = 0
                cand = []
                for u in units:
                    m = len(u.splitlines()) - 1
                    if x[n:n + m] != y[n:n + m]:
                        cand.append(u)
                    n += m
            else:
                cand = [units[i] for i in range(min(len(x), len(y), len(units))) if x[i] != y[i]] or units
            for u in sorted(cand, key=len)[:80]:
                x1 = apart(w + "/a", w + "/b", u)
                if x1:
                    done = True
                    break
            if not done and not session:         # something in the history matters: the shortest prefix
                i = [i for i in range(min(len(x), len(y))) if x[i] != y[i]][0]
                for k in (1, 2, 4, 8, 20, 60, 200, 1000, i):
                    u = "%d\n%s\n" % (min(k, i) + 1, "\n".join(lines[1 + i - min(k, i):2 + i]))
                    x1 = apart(w + "/a", w + "/b", u)
                    if x1:
                        done = True
                        break
            if done:
                break
        assert done, (sid, "no input tells them apart")
        open(d + "/input.txt", "w").write(u)
        open(d + "/expected.txt", "w").write("\n".join(x1) + "\n")
        open(d + "/demo.sh", "w").write(DEMO % (" ".join(b["tus"]), LIBS))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # the test suite, in the mutated copy
        print(sid, s["property"], "made:", len(u), "bytes of input", flush=True)
    except AssertionError as e:
        print(sid, s["property"], "FAILED", e, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
