"""C10: the real tracking engine and its maps against spec/Slam.tla."""
import concurrent.futures as cf

from checks.features import GEN
from checks.outputs import tokens
from vlib import CheckError, flat

TUS = ['src/features/keypoints/keypoint_handler.cpp', 'src/features/primitives/cylinder_segment.cpp',
       'src/features/primitives/plane_segment.cpp', 'src/features/primitives/shape_primitives.cpp',
       'src/map_management/map_features/map_point.cpp', 'src/map_management/map_features/map_point2d.cpp',
       'src/map_management/map_features/map_primitive.cpp', 'src/outputs/logger.cpp', 'src/parameters.cpp',
       'src/rgbd_slam.cpp', 'src/utils/polygon.cpp', 'src/utils/pose.cpp', 'src/utils/angle_utils.cpp',
       'src/coordinates/point_coordinates.cpp', 'src/utils/distance_utils.cpp', 'third_party/concave_fitting.cpp',
       'src/utils/covariances.cpp', 'src/coordinates/plane_coordinates.cpp', 'src/features/lines/line_detection.cpp',
       'src/features/primitives/depth_map_transformation.cpp', 'src/outputs/map_writer.cpp',
       'src/tracking/inverse_depth_with_tracking.cpp', 'src/tracking/motion_model.cpp',
       'src/utils/camera_transformation.cpp', 'src/coordinates/inverse_depth_coordinates.cpp',
       'src/coordinates/basis_changes.cpp', 'third_party/line_segment_detector.cpp',
       'src/coordinates/polygon_coordinates.cpp', 'src/tracking/plane_with_tracking.cpp', 'src/utils/line.cpp',
       'src/tracking/point_with_tracking.cpp']
STUBBED = ["src/features/keypoints/keypoint_detection.cpp", "src/features/primitives/primitive_detection.cpp",
           "src/pose_optimization/pose_optimization.cpp"]
POINTS = {i: (2000, -((i - 1) % 5 - 2) * 500 + ((i - 1) // 20 % 2) * 200, -(((i - 1) % 20 // 5) * 2 - 3) * 225 - ((i - 1) // 40) * 150)
          for i in range(1, 81)}
PLANES = {1: (1500, 0, 0), 2: (2000, 0, 0), 3: (2600, 0, 0)}


def where(c, sites, tol):
    for i, s in sites.items():
        if all(abs(a / 2.0 - b) <= tol for a, b in zip(c, s)):
            return i
    return -1


def pixel(i, k):
    return 320 + ((i - 1) % 5 - 2) * 120 - ((i - 1) // 20 % 2) * 48 - 6 * k, 240 + (((i - 1) % 20 // 5) * 2 - 3) * 54 + ((i - 1) // 40) * 36


def whole(v):
    return round(v) if abs(v - round(v)) < 1e-6 else 99999


def coords(lines):
    """Elements of the exported obj file, as sites."""
    verts, pts, polys = [], [], []
    for line in lines:
        t = line.split()
        if t[0] == "v":
            verts.append([2 * float(x) for x in t[1:]])
        elif t[0] in ("p", "f"):
            idx = [int(x.split("/")[0]) for x in t[1:]]
            if not idx or any(i < 1 or i > len(verts) for i in idx):
                (pts if t[0] == "p" else polys).append(-1)
                continue
            c = [verts[i - 1] for i in idx]
            if t[0] == "p":
                pts.append(where(c[0], POINTS, 2))
            else:
                mid = [(min(v[a] for v in c) + max(v[a] for v in c)) / 2 for a in range(3)]
                polys.append(where(mid, PLANES, 15))
        elif t[0] == "l":
            pts.append(-1)
    return pts, polys


def sessions(ctx):
    exe = ctx.build("h_slam", "h_slam.cpp", TUS, exclude=STUBBED)
    ctx.model_check("SlamMC")
    cases = ctx.generate("SlamGen", GEN % (ctx.pick(300, 2500), ctx.seed))

    def text(c):
        o = [str(len(c["frames"]))]
        for f in c["frames"]:
            o.append("%s %s %d %d %d %s %s %s" % ("".join(f["det"]), "".join(f["pl"]), f["ok"], f["k"], f["var"], flat(f["rej"]), flat(f["rejf"]), flat(f["rejp"])))
        return "\n".join(o)

    parts = [cases[i::6] for i in range(6)]

    def go(p):
        rows = ctx.run_harness(exe, "%d\n%s\n" % (len(p), "\n".join(text(c) for c in p)), "sessions")
        if len(rows) != sum(len(c["frames"]) + 1 for c in p):
            raise CheckError("harness answered %d rows" % len(rows))
        out, it = [], iter(rows)
        for c in p:
            last = 0
            for f in c["frames"]:
                a = next(it)
                a["tracked"] = [{"id": int(t[0]), "site": next((i for i in POINTS if abs(pixel(i, last)[0] - t[1]) < 0.6 and abs(pixel(i, last)[1] - t[2]) < 0.6), -1)}
                                for t in a["tracked"]]
                a["pose"], a["pred"], a["vout"] = whole(a["pose"]), whole(a["pred"]), whole(a["vout"])
                last = a["pose"]
                out.append(dict(f, op="frame", **a))
            pts, polys = coords(next(it)["lines"])
            out.append({"op": "end", "points": pts, "polys": polys})
        return out

    with cf.ThreadPoolExecutor(6) as ex:
        recs = list(ex.map(go, parts))
    ctx.log("ran %d sessions" % len(cases))
    ctx.sample({"frame": recs[0][5]})
    for i, r in enumerate(recs if ctx.thorough else [sum(recs, [])]):
        ends = [j for j, x in enumerate(r) if x["op"] == "end"]
        n = max(1, len(ends) // 8 + 1)
        cuts = [0] + [ends[j] + 1 for j in range(n - 1, len(ends), n)]
        if cuts[-1] != len(r):
            cuts.append(len(r))
        pieces = [r[a:b] for a, b in zip(cuts, cuts[1:])]
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda p: ctx.validate("SlamTrace", p[1], what="sessions %d" % p[0],
                                               context=lambda x: x["op"] == "end", traces=sum(x["op"] == "end" for x in p[1])), enumerate(pieces)))
