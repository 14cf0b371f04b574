"""Shared machinery: build harnesses from /repo's working tree, run TLC, validate traces, write evidence."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = os.cpu_count() or 4


class Violation(Exception):
    """The real code left the behaviours allowed by the specification."""

    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.replay = replay or {}


def _capture(obj):
    """For tools/seedgen.py only: note what is built and fed to it."""
    if os.environ.get("VERIF_CAPTURE"):
        with open(os.environ["VERIF_CAPTURE"], "a") as f:
            f.write(json.dumps(obj) + "\n")


class CheckError(Exception):
    """The check itself could not run (tooling / build / model error)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def include_flags(shims=()):
    inc = [os.path.join(VERIF, "harness")]
    inc += [os.path.join(VERIF, "harness", s) for s in shims]
    inc += [os.path.join(VERIF, "harness", "shim")]
    # every directory of the repository that holds headers
    dirs = ["src", "third_party", "examples"]
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, REPO)
        if rel not in dirs and any(f.endswith((".hpp", ".h")) for f in files):
            dirs.append(rel)
    inc += [os.path.join(REPO, d) for d in dirs]
    inc += ["/usr/include/flann", "/usr/include/eigen3", "/usr/include/opencv4"]
    return ["-I" + d for d in inc]


BASE_FLAGS = ["-std=c++20", "-O1", "-w", "-g0", "-fno-var-tracking"]
LIBS = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_features2d", "-lopencv_highgui", "-lopencv_video",
        "-lopencv_calib3d", "-lopencv_flann", "-lopencv_imgcodecs", "-lopencv_ximgproc", "-ltbb", "-llz4", "-lyaml-cpp", "-lpthread"]


def _lib_ok(flag):
    name = "lib" + flag[2:] + ".so"
    return flag in ("-lpthread",) or any(
        os.path.exists(os.path.join(d, name)) for d in ("/usr/lib/x86_64-linux-gnu", "/usr/lib", "/usr/local/lib"))


def all_repo_tus():
    out = []
    for d in ("src", "third_party"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith(".cpp") and "test" not in f:
                    out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vrf_%s_" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.notes = []
        self.known_hits = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def _compile(self, src, flags):
        cmd = ["g++"] + flags + ["-c", src]
        key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:24]
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
        sig = obj + ".sig"
        if os.path.exists(obj) and os.path.exists(sig):
            try:
                deps = json.load(open(sig))
                if all(file_hash(p) == h for p, h in deps.items()):
                    return obj, None
            except Exception:
                pass
        tmp = obj + ".%d.tmp" % os.getpid()
        dep = tmp + ".d"
        r = sh(cmd + ["-MMD", "-MF", dep, "-o", tmp])
        if r.returncode != 0:
            return None, r.stdout
        txt = open(dep).read().replace("\\\n", " ")
        deps = {p: file_hash(p) for p in txt.split(":", 1)[1].split()}
        os.unlink(dep)
        os.replace(tmp, obj)
        json.dump(deps, open(sig, "w"))
        return obj, None

    def build(self, name, main, tus, flags=(), shims=(), exclude=(), ldflags=(), opt=None,
              tu_flags=None):
        """Compile /repo's `tus` and the harness `main` and link; when the listed units do not link any more
        (a refactoring moved a dependency) every unit of the repository is compiled instead."""
        _capture({"build": main, "tus": list(tus)})
        base = [f for f in BASE_FLAGS if not (opt and f.startswith("-O"))] + ([opt] if opt else [])
        fl = base + list(flags) + include_flags(shims)
        libs = [l for l in LIBS if _lib_ok(l)]
        exe = os.path.join(self.work, name)
        mains = [main] if isinstance(main, str) else list(main)
        srcs = [os.path.join(VERIF, "harness", m) for m in mains]
        per = {os.path.join(REPO, k): list(v) for k, v in (tu_flags or {}).items()}

        def comp(paths):
            with cf.ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(lambda s: self._compile(s, fl + per.get(s, [])), paths))
            errs = [e for o, e in res if o is None]
            return [o for o, _ in res], errs

        repo = [os.path.join(REPO, t) for t in tus]
        missing = [p for p in repo if not os.path.exists(p)]
        first_err = None
        if not missing:
            objs, errs = comp(srcs + repo)
            if not errs:
                r = sh(["g++"] + list(flags) + objs + ["-o", exe] + list(ldflags) + libs)
                if r.returncode == 0:
                    self.log("built", name)
                    return exe
                first_err = r.stdout
            else:
                first_err = errs[0]
        self.log("retrying the build of %s with every unit of the repository" % name)
        every = [os.path.join(REPO, t) for t in all_repo_tus() if t not in exclude]
        objs, errs = comp(srcs + every)
        if errs:
            raise CheckError("compilation failed:\n" + (first_err or errs[0])[-6000:])
        ar = os.path.join(self.work, name + ".a")
        n = len(srcs)
        sh(["ar", "rcs", ar] + objs[n:])
        r = sh(["g++"] + list(flags) + objs[:n] + [ar] + ["-o", exe] + list(ldflags) + libs)
        if r.returncode != 0:
            raise CheckError("link failed:\n" + r.stdout[-6000:])
        return exe

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers="auto", extra=(), timeout=800, heap="4g", depthfirst=False):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        for f in glob.glob(os.path.join(VERIF, "spec", "*")):
            if os.path.isfile(f):
                shutil.copy(f, d)
        if cfg and "\n" in cfg:
            open(os.path.join(d, "_run.cfg"), "w").write(cfg)
            cfg = "_run.cfg"
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m"]
        if depthfirst:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
                "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        ms = re.findall(r"The number of states generated: (\d+)", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (int(ms[-1]), int(ms[-1])) if ms else (0, 0)
        res = {"out": out, "rc": r.returncode, "generated": gen, "distinct": dist, "dir": d}
        return res

    def model_check(self, module, cfg=None, **kw):
        """The specification itself must satisfy its properties."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError("TLC reports an error in the model %s:\n%s" % (module, r["out"][-4000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.log("TLC %s: %d states, %d transitions" % (module, r["distinct"], r["generated"]))
        return r

    def generate(self, module, cfg=None, env=None, **kw):
        """Let TLC write behaviours/inputs of the specification to a file (one JSON value a line)."""
        out = os.path.join(self.work, "gen_%s_%d.jsonl" % (module, len(os.listdir(self.work))))
        e = dict(env or {})
        e["OUT"] = out
        r = self.tlc(module, cfg, env=e, workers=1, **kw)
        sim = "-simulate" in kw.get("extra", ())
        if r["rc"] != 0 or ("No error has been found" not in r["out"] and not sim):
            raise CheckError("TLC generator %s failed:\n%s" % (module, r["out"][-4000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        rows = []
        with open(out) as f:
            for line in f:
                line = line.strip()
                if line:
                    v = json.loads(line)
                    rows.append(json.loads(v) if isinstance(v, str) else v)
        self.log("TLC %s generated %d cases (%d states)" % (module, len(rows), r["distinct"]))
        return rows

    def validate(self, module, records, cfg=None, env=None, what="", timeout=800, chunk=None, context=None,
                 traces=None, **kw):
        """Trace validation: TLC must be able to take every recorded step. Raises Violation otherwise."""
        if not records:
            raise CheckError("empty trace for " + module)
        chunks = [records] if not chunk else [records[i:i + chunk] for i in range(0, len(records), chunk)]

        def one(idx):
            part = chunks[idx]
            path = os.path.join(self.work, "trace_%s_%s_%d.ndjson" % (module, abs(hash(what)) % 99999, idx))
            with open(path, "w") as f:
                for r in part:
                    f.write(json.dumps(r) + "\n")
            e = dict(env or {})
            e["TRACE"] = path
            return self.tlc(module, cfg, env=e, workers=1, timeout=timeout, **kw), path

        with cf.ThreadPoolExecutor(min(JOBS, len(chunks)) or 1) as ex:
            results = list(ex.map(one, range(len(chunks))))
        for idx, (r, path) in enumerate(results):
            out = r["out"]
            rej = re.search(r'"REJECTED",\s*(\d+)', out)
            if rej:
                k = int(rej.group(1))
                # a rejection is reported only when it repeats
                r2, _ = one(idx)
                rej2 = re.search(r'"REJECTED",\s*(\d+)', r2["out"])
                if not rej2:
                    raise CheckError("rejection of %s did not repeat" % module)
                part = chunks[idx]
                bad = part[k - 1]
                lo = k - 1
                while lo > 0 and context and not context(part[lo]):
                    lo -= 1
                why = sorted(set(re.findall(r'"WHY",\s*"([^"]*)"', out)))
                raise Violation("%s: recorded step is not a behaviour of %s (%s): %s" %
                                (what, module, ", ".join(why), json.dumps(bad)[:1500]),
                                {"kind": "trace", "spec": module, "failing_record": bad, "why": why,
                                 "history": part[lo:k]})
            if r["rc"] != 0 or "No error has been found" not in out:
                raise CheckError("TLC failed on trace of %s (%s):\n%s" % (module, what, out[-4000:]))
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
        n = traces if traces is not None else len(records)
        self.cov["traces_validated_against_impl"] += n
        self.log("TLC accepted %d recorded steps of %s (%s)" % (len(records), module, what))

    # ---------------------------------------------------------------- harness
    def run_harness(self, exe, text, what, timeout=300, args=(), env=None, crash_is_violation=True):
        """Feed `text` on stdin; the harness answers one JSON value a line. A crash, an abort or a hang of the
        real code on an admissible input is a violation (repeated before it is reported)."""
        _capture({"input": text, "what": what})
        cwd = tempfile.mkdtemp(prefix="run_", dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["RGBD_HARNESS"] = "1"

        def go():
            outp = os.path.join(cwd, "out.jsonl")
            errp = os.path.join(cwd, "err.txt")
            with open(outp, "w") as fo, open(errp, "w") as fe:
                p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=fe, stderr=fe, cwd=cwd,
                                     env=dict(e, HOUT=outp), text=True,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE,
                                                                           (400 << 20, 400 << 20)))
                try:
                    p.communicate(text, timeout=timeout)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = "timeout"
            rows = []
            with open(outp) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        try:
                            rows.append(json.loads(line))
                        except ValueError:
                            break
            with open(errp, errors="replace") as f:
                f.seek(0, 2)
                sz = f.tell()
                f.seek(max(0, sz - 3000))
                tail = f.read()
            return rc, rows, tail

        rc, rows, tail = go()
        if rc != 0:
            if rc == 3:
                raise CheckError("harness error (%s):\n%s" % (what, tail))
            rc2, rows2, tail2 = go()
            if rc2 == 0:
                raise CheckError("harness failure did not repeat (%s, rc %s):\n%s" % (what, rc, tail))
            if not crash_is_violation:
                raise CheckError("harness failed (%s, rc %s):\n%s" % (what, rc, tail))
            lines = text.splitlines()
            raise Violation("%s: the code %s on an admissible input (after %d answers): %s" %
                            (what, "hangs" if rc2 == "timeout" else "crashes (rc %s)" % rc2, len(rows2),
                             tail2.strip()[-600:]),
                            {"kind": "crash", "rc": str(rc2), "answers": len(rows2), "input_head": lines[:3],
                             "stderr_tail": tail2[-1500:]})
        return rows

    def sample(self, obj, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)


def flat(v):
    """Flatten JSON-like input for the C++ harnesses: ints and words as tokens, lists length-prefixed."""
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, (int, str)):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    return " ".join([str(len(v))] + [flat(x) for x in v])
