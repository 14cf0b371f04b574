"""C14: the real keypoint container against spec/KeypointIndex.tla."""
from vlib import CheckError, flat

TUS = ["src/features/keypoints/keypoint_handler.cpp", "src/outputs/logger.cpp"]


def run(ctx):
    exe = ctx.build("h_keypoints", "h_keypoints.cpp", TUS)
    ctx.model_check("KeypointIndexMC")
    cases = ctx.generate("KeypointIndexGen", "SPECIFICATION Spec\nCONSTANTS\n  Num = %d\n  Seed = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"
                         % (ctx.pick(1500, 20000), ctx.seed))
    out = []
    for c in cases:
        out.append("%d %d %d %d" % (c["s"][0], c["s"][1], c["ratio"], len(c["frames"])))
        for fr in c["frames"]:
            f = fr["f"]
            out.append(
                " ".join([str(len(f["det"]))] + ["%d %d %d" % (d["x"], d["y"], d["d"]) for d in f["det"]]))
            out.append(" ".join([str(len(f["trk"]))] + ["%d %d %d" % (d["id"], d["x"], d["y"]) for d in f["trk"]]))
            out.append(str(len(fr["q"])))
            for q in fr["q"]:
                out.append("%d %d %d %s %d" % (q["p"]["x"], q["p"]["y"], q["R"], flat(q["taken"]), q["id"]))
    ans = ctx.run_harness(exe, "%d\n%s\n" % (len(cases), "\n".join(out)), "keypoint search")
    recs = []
    it = iter(ans)
    for c in cases:
        for fr in c["frames"]:
            a = next(it)
            recs.append({"s": c["s"], "ratio": c["ratio"], "f": fr["f"], "count": a["count"], "pts": a["pts"],
                         "q": [dict(q, **x) for q, x in zip(fr["q"], a["ans"])]})
    if next(it, None) is not None:
        raise CheckError("harness answered too much")
    ctx.sample({"case": recs[0]})
    ctx.validate("KeypointIndexTrace", recs, what="keypoint search", chunk=max(500, len(recs) // 8 + 1))
