"""C08, C09: the real map features against spec/FeatureMatch.tla and spec/FeatureLife.tla."""
from vlib import CheckError, flat

TUS = ['src/features/keypoints/keypoint_handler.cpp', 'src/features/primitives/plane_segment.cpp',
       'src/features/primitives/shape_primitives.cpp', 'src/map_management/map_features/map_point.cpp',
       'src/map_management/map_features/map_point2d.cpp', 'src/map_management/map_features/map_primitive.cpp',
       'src/parameters.cpp', 'src/utils/camera_transformation.cpp', 'src/utils/polygon.cpp',
       'src/coordinates/point_coordinates.cpp', 'src/outputs/logger.cpp', 'src/utils/distance_utils.cpp',
       'third_party/concave_fitting.cpp', 'src/utils/covariances.cpp', 'src/coordinates/plane_coordinates.cpp',
       'src/utils/angle_utils.cpp', 'src/coordinates/polygon_coordinates.cpp', 'src/tracking/plane_with_tracking.cpp',
       'src/coordinates/inverse_depth_coordinates.cpp', 'src/tracking/inverse_depth_with_tracking.cpp',
       'src/utils/line.cpp', 'src/coordinates/basis_changes.cpp', 'src/tracking/point_with_tracking.cpp',
       'src/features/primitives/cylinder_segment.cpp']

GEN = "SPECIFICATION Spec\nCONSTANTS\n  Num = %d\n  Seed = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"


def pose(p):
    return " ".join(str(x) for row in p["R"] for x in row) + " " + " ".join(str(x) for x in p["t"])


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def after(p, d):
    return {"R": mul(p["R"], d["R"]), "t": [sum(p["R"][i][k] * d["t"][k] for k in range(3)) + p["t"][i] for i in range(3)]}


def rect(q):
    return "%d %d %d %d %d" % (q["D"], q["x1"], q["x2"], q["y1"], q["y2"])


def frame(f):
    return " ".join([str(len(f["det"]))] + ["%d %d %d" % (d["x"], d["y"], d["d"]) for d in f["det"]]
                    + [str(len(f["trk"]))] + ["%d %d %d" % (d["id"], d["x"], d["y"]) for d in f["trk"]])


def encode(c):
    o = [c["type"], str(c["kind"]), pose(c["pose0"])]
    if c["type"] == "plane":
        o += [rect(c["rect"]), pose(c["pose1"]), "%d %d" % (c["add"], c["wide"]), str(len(c["dets"]))]
        o += [rect(d) + " %d %d %d" % (d["s"], d["c"], d["n"]) for d in c["dets"]]
        o += [flat(c["taken"]), str(len(c["vdisp"]))] + [pose(after(c["pose0"], d)) for d in c["vdisp"]]
        o += [str(len(c["agree"]))] + [" ".join(map(str, a["t"])) + " %d" % a["d"] for a in c["agree"]]
    else:
        o += [" ".join(map(str, c["at"])), "%d %d %d" % (c["d0"], c["again"], c["d1"]), pose(c["pose1"]), "%d %d" % (c["add"], c["wide"]), frame(c["f"]), flat(c["taken"])]
        o += [str(len(c["views"]))] + [pose(v) for v in c["views"]]
    return " ".join(o)


def match(ctx):
    exe = ctx.build("h_features", "h_features.cpp", TUS)
    cases = ctx.generate("FeatureMatchGen", GEN % (ctx.pick(6000, 60000), ctx.seed))
    ans = ctx.run_harness(exe, "%d\n%s\n" % (len(cases), "\n".join(encode(c) for c in cases)), "matching")
    if len(ans) != len(cases):
        raise CheckError("harness answered %d of %d" % (len(ans), len(cases)))
    recs = [dict(c, **a) for c, a in zip(cases, ans)]
    ctx.sample({"case": recs[0]})
    ctx.validate("FeatureMatchTrace", recs, what="matching", chunk=max(500, len(recs) // 8 + 1))


RZ = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
RX = [[1, 0, 0], [0, 0, -1], [0, 1, 0]]
RY = [[0, 0, 1], [0, 1, 0], [-1, 0, 0]]
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def power(m, n):
    return I3 if n == 0 else mul(power(m, n - 1), m)


def rot(n):
    face = [I3, RX, power(RX, 2), power(RX, 3), RY, power(RY, 3)][n // 4]
    return mul(face, power(RZ, n % 4))


def life(ctx):
    exe = ctx.build("h_life", "h_life.cpp", TUS + ["src/outputs/map_writer.cpp"])
    ctx.model_check("FeatureLifeMC")
    cases = ctx.generate("FeatureLifeGen", "SPECIFICATION Spec\nCONSTANTS\n  Len0 = %d\n  Num = %d\n  Seed = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"
                         % (ctx.pick(5, 7), ctx.pick(500, 4000), ctx.seed))
    text = []
    for c in cases:
        # straight up and down is the singularity of the angles of a 2D point: not claimed
        n = c["place"] + (4 if c["kind"] == "flat" and c["place"] // 4 in (1, 3) else 0)
        p = {"R": rot(n), "t": [37 * c["place"], -23 * c["place"], 11 * c["place"]]}
        text.append("%s %s %s %s" % (c["kind"], "".join(c["word"]), pose(p), pose({"R": mul(p["R"], power(RX, 2)), "t": p["t"]})))
    ans = ctx.run_harness(exe, "%d\n%s\n" % (len(cases), "\n".join(text)), "lives")
    if len(ans) != len(cases):
        raise CheckError("harness answered %d of %d" % (len(ans), len(cases)))
    recs = [dict(c, **a) for c, a in zip(cases, ans)]
    ctx.sample({"case": recs[-1]})
    ctx.validate("FeatureLifeTrace", recs, what="lives", chunk=max(500, len(recs) // 8 + 1))
