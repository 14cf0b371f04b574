"""C11/C12: the real consensus search and pose uncertainty under controlled schedules, against spec/Ransac.tla."""
import concurrent.futures as cf

from vlib import CheckError, flat

TUS = ["src/pose_optimization/pose_optimization.cpp", "src/utils/pose.cpp", "src/utils/angle_utils.cpp",
       "src/outputs/logger.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp",
       "src/utils/camera_transformation.cpp", "src/utils/distance_utils.cpp"]
PO = "src/pose_optimization/pose_optimization.cpp"


def build(ctx):
    return ctx.build("h_ransac", "h_ransac.cpp", TUS, shims=("shim_sched",), tu_flags={PO: ["-fsanitize=thread"]},
                     ldflags=["-ldl"])


def execute(ctx, exe, cases, what):
    """cases: dicts with op and parameters; run in parallel slices, give back records."""
    def line(c):
        if c["op"] == "ransac":
            return "ransac %s %d %s %s %s" % (flat(c["w"]), c["invalid"], flat(c["H"]), flat(c["live"]), flat(c["seg"]))
        if c["op"] == "pose":
            return "pose %s 0 %s %s %s %s" % (flat(c["w"]), flat(c["H"]), flat(c["live"]), flat([]), flat(c["vars"]))
        return "variance %d %s %s %s %d" % (c["iterations"], flat(c["vars"]), flat(c["live"]), flat(c["seg"]), c.get("m", 2))

    n = 8
    parts = [cases[i::n] for i in range(n) if cases[i::n]]
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: ctx.run_harness(exe, "\n".join(line(c) for c in p) + "\n", what, timeout=240), parts))
    recs = []
    for p, r in zip(parts, res):
        if len(p) != len(r):
            raise CheckError("harness answered %d of %d" % (len(r), len(p)))
        for c, a in zip(p, r):
            rec = dict(a)
            rec.update(c)
            recs.append(rec)
    return recs


def gen(ctx, kind, points, step=1):
    return ctx.generate("RansacGen", "SPECIFICATION Spec\nCONSTANTS\n  Points = %d\n  Kind = \"%s\"\n  Step = %d\nINVARIANTS Emit\n"
                        "CHECK_DEADLOCK FALSE\n" % (points, kind, step))


def search(ctx):
    exe = build(ctx)
    ctx.model_check("RansacMC")
    r = ctx.tlc("RansacMC", open_cfg(ctx, "RansacMC.cfg").replace("Atomic = TRUE", "Atomic = FALSE"))
    if "Invariant Promise is violated" not in r["out"] and "NeverWorse is violated" not in r["out"]:
        raise CheckError("the model does not tell a lost update apart:\n" + r["out"][-2000:])
    # how many scheduling points does a worker pass?
    probe = execute(ctx, exe, [{"op": "ransac", "w": [100, 100, 100], "invalid": 0, "H": [[0], [0, 1]], "live": [4, 5], "seg": []}],
                    "probe")
    pts = max(probe[0]["points"] or [0])
    if probe[0]["loops"] < 1 or not probe[0]["points"]:
        # another way to run the iterations: schedules are not ours, all iterations find the same hypothesis
        ctx.log("the search does not use the loop under control: uncontrolled runs only")
        cases = [{"op": "ransac", "w": w, "invalid": inv, "H": [h], "live": [-1], "seg": []}
                 for w in ([100, 100, 100], [40, 40, 40], [40, 40, 90, 20], [100]) for inv in (0, 1)
                 for m in range(1, 1 << len(w)) for h in [[i for i in range(len(w)) if m >> i & 1]]]
        recs = execute(ctx, exe, cases, "consensus search")
        ctx.sample({"case": recs[0]})
        ctx.validate("RansacTrace", recs, what="consensus search, schedules not controlled")
        return
    points = min(max(pts, 4), 60)
    ctx.log("scheduling points per worker:", probe[0]["points"])
    cases = []
    for kind, lives in (("two", [[4, 5], [0, 1]]), ("three", [[3, 4, 5]]), ("seq", [[3, 4, 5], [0, 1, 2], [5, 4, 117]]),
                        ("near", [[3, 4]]), ("many", [[3, 4]])):
        step = max(1, points // ctx.pick(10, 30)) if kind == "two" else 1
        for live in lives[:ctx.pick(1, 9) if kind == "two" else 9]:
            for g in gen(ctx, kind, points, step):
                cases.append({"op": "ransac", "w": g["w"], "invalid": 0, "H": g["H"], "live": live, "seg": g["seg"]})
    for n in (1, 2, 3, 6, 9):
        for bad in range(1, n + 1):
            cases.append({"op": "ransac", "w": [100] * n, "invalid": bad, "H": [list(range(n))], "live": [0], "seg": []})
    recs = execute(ctx, exe, cases, "consensus search")
    ctx.sample({"case": recs[0]})
    ctx.validate("RansacTrace", recs, what="consensus search", chunk=max(200, len(recs) // 8 + 1))


def open_cfg(ctx, name):
    import os
    import vlib
    return open(os.path.join(vlib.VERIF, "spec", name)).read()


def spread(ctx):
    exe = build(ctx)
    gens = ctx.generate("SpreadGen", "SPECIFICATION Spec\nCONSTANTS\n  MaxIt = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % ctx.pick(4, 5))
    cases = [{"op": "variance", "iterations": g["it"], "vars": g["vars"], "live": [], "seg": []} for g in gens]
    # all interleavings with up to two preemptions
    probe = execute(ctx, exe, [{"op": "variance", "iterations": 4, "vars": [[1, 0, 0], [2, 0, 1], [3, 1, 0], [6, 0, 0]],
                                "live": [0, 1, 2, 3], "seg": []}], "probe")
    pts = max(probe[0]["points"] or [0])
    ctx.log("scheduling points per worker:", probe[0]["points"])
    if not probe[0]["points"]:
        ctx.log("the uncertainty does not use the loop under control: uncontrolled runs only")
        for c in cases:
            c["live"] = [-1]
    for g in [] if not probe[0]["points"] else ctx.generate("SpreadSched", "SPECIFICATION Spec\nCONSTANTS\n  Points = %d\n  Step = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"
                          % (min(pts, 120), max(1, min(pts, 120) // ctx.pick(16, 40)))):
        cases.append({"op": "variance", "iterations": 4, "vars": g["vars"], "live": [0, 1, 2, 3], "seg": g["seg"]})
    for g in ctx.generate("SpreadRand", "SPECIFICATION Spec\nCONSTANTS\n  Num = %d\n  Seed = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"
                          % (ctx.pick(250, 2000), ctx.seed)):
        live = [] if probe[0]["points"] else [-1]
        cases.append({"op": "variance", "iterations": g["it"], "vars": g["vars"], "live": live, "seg": [], "m": g["m"]})
        if probe[0]["points"]:
            # the same re-estimations, of a pose found by a search on which some of the matches agree
            cases.append({"op": "pose", "w": [100] * g["m"], "H": [list(range(g["agree"]))], "live": [3], "seg": [], "vars": g["vars"]})
    recs = execute(ctx, exe, cases, "pose uncertainty")
    ctx.sample({"case": recs[0]})
    ctx.validate("RansacTrace", recs, what="pose uncertainty", chunk=max(200, len(recs) // 8 + 1))
