"""Exact rational geometry: frames, uncertainty, lines against spec/Frames.tla and its companions."""
from vlib import CheckError, flat
from checks.features import GEN

FRAME_TUS = ['src/coordinates/plane_coordinates.cpp', 'src/coordinates/point_coordinates.cpp', 'src/parameters.cpp',
             'src/utils/camera_transformation.cpp', 'src/outputs/logger.cpp', 'src/utils/angle_utils.cpp',
             'src/utils/covariances.cpp', 'src/utils/distance_utils.cpp']


def nums(*a):
    o = []
    for x in a:
        o += [nums(*x)] if isinstance(x, (list, tuple)) else [str(x)]
    return " ".join(o)


def both(ctx, exe, cases, encode, module, what, least=500):
    ans = ctx.run_harness(exe, "%d\n%s\n" % (len(cases), "\n".join(encode(c) for c in cases)), what)
    if len(ans) != len(cases):
        raise CheckError("harness answered %d of %d" % (len(ans), len(cases)))
    recs = [dict(c, **a) for c, a in zip(cases, ans)]
    ctx.sample({"case": recs[0]})
    ctx.validate(module, recs, what=what, chunk=max(least, len(recs) // 8 + 1))
    return recs


def frames(ctx):
    exe = ctx.build("h_frames", "h_frames.cpp", FRAME_TUS)
    ctx.model_check("FramesMC")
    cases = ctx.generate("FramesGen", GEN % (ctx.pick(12000, 200000), ctx.seed))

    def encode(c):
        if c["type"] == "point":
            return nums("point", c["q"], c["t"], c["c"], c["w"], c["zs"], c["u"], c["v"], c["z"])
        return nums("plane", c["q"], c["t"], c["m1"], c["K1"], c["d1"], c["m2"], c["K2"], c["d2"], c["p"])
    both(ctx, exe, cases, encode, "FramesTrace", "frames")


LINE_TUS = ['src/coordinates/inverse_depth_coordinates.cpp', 'src/parameters.cpp', 'src/utils/camera_transformation.cpp',
            'src/utils/line.cpp', 'src/coordinates/point_coordinates.cpp', 'src/outputs/logger.cpp', 'src/utils/polygon.cpp',
            'src/utils/distance_utils.cpp', 'third_party/concave_fitting.cpp', 'src/utils/covariances.cpp',
            'src/coordinates/plane_coordinates.cpp', 'src/utils/angle_utils.cpp', 'src/coordinates/basis_changes.cpp']


def lines(ctx):
    exe = ctx.build("h_lines", "h_lines.cpp", LINE_TUS)
    ctx.model_check("LinesMC")
    cases = ctx.generate("LinesGen", GEN % (ctx.pick(12000, 200000), ctx.seed))

    def encode(c):
        t = c["type"]
        if t == "ray":
            return nums(t, c["q"], c["t"], c["u"], c["v"], c["m"], c["K"], c["depth"])
        if t == "cart":
            return nums(t, c["q"], c["t"], c["o"], c["m"], c["K"], c["s"], c["j"], c["zf"], c["zn"])
        if t == "pair":
            return nums(t, c["o1"], c["m1"], c["K1"], c["o2"], c["m2"], c["K2"])
        if t == "close":
            return nums("close%d" % len(c["a"]), c["a"], c["b"], c["p"])
        return nums(t, c["a"], c["b"], c["s"])
    both(ctx, exe, cases, encode, "LinesTrace", "lines")


def uncertainty(ctx):
    exe = ctx.build("h_uncertainty", "h_uncertainty.cpp", FRAME_TUS)
    ctx.model_check("UncertaintyMC")
    cases = ctx.generate("UncertaintyGen", GEN % (ctx.pick(10000, 150000), ctx.seed))
    order = {"move": "q C P D", "pixel": "a b k C i j z e q P", "valid": "A B x y by", "plane": "m K d C F v",
             "world": "m K d C v P q t", "depth": "z w out u y"}
    both(ctx, exe, cases, lambda c: nums(c["type"], *[c[k] for k in order[c["type"]].split()]), "UncertaintyTrace", "uncertainty")


SHAPE_TUS = ['src/coordinates/polygon_coordinates.cpp', 'src/parameters.cpp', 'src/utils/camera_transformation.cpp',
             'src/utils/polygon.cpp', 'src/coordinates/point_coordinates.cpp', 'src/outputs/logger.cpp',
             'src/utils/distance_utils.cpp', 'third_party/concave_fitting.cpp', 'src/utils/covariances.cpp',
             'src/coordinates/plane_coordinates.cpp', 'src/utils/angle_utils.cpp']


def shapes(ctx):
    exe = ctx.build("h_shape", "h_shape.cpp", SHAPE_TUS)
    ctx.model_check("ShapeMC")
    cases = ctx.generate("ShapeGen", GEN % (ctx.pick(2500, 30000), ctx.seed))

    def encode(c):
        ring = lambda r: nums(len(r), r)
        if c["type"] == "pair":
            return nums("pair", c["s"], c["q"], c["c"], ring(c["ra"]), ring(c["rb"]), c["k"], c["flip"], c["o"], c["h"])
        if c["type"] == "move":
            return nums("move", c["s"], c["q"], c["c"], ring(c["ra"]), c["Q"], c["C"])
        if c["type"] == "bump":
            return nums("bump", c["q"], c["c"], c["w"], c["h"], c["e"])
        return nums("hull", c["s"], c["q"], c["c"], ring(c["pts"]))
    both(ctx, exe, cases, encode, "ShapeTrace", "polygons")
