"""Estimation over frames: fusion of measurements, motion prediction."""
from checks.features import GEN
from checks.geometry import both, nums

FUSION_TUS = ['src/coordinates/inverse_depth_coordinates.cpp', 'src/coordinates/point_coordinates.cpp',
              'src/features/primitives/plane_segment.cpp', 'src/features/primitives/shape_primitives.cpp', 'src/parameters.cpp',
              'src/tracking/inverse_depth_with_tracking.cpp', 'src/tracking/plane_with_tracking.cpp',
              'src/tracking/point_with_tracking.cpp', 'src/utils/camera_transformation.cpp', 'src/utils/covariances.cpp',
              'src/utils/distance_utils.cpp', 'src/utils/polygon.cpp', 'src/outputs/logger.cpp', 'third_party/concave_fitting.cpp',
              'src/coordinates/plane_coordinates.cpp', 'src/utils/angle_utils.cpp', 'src/coordinates/polygon_coordinates.cpp',
              'src/features/primitives/cylinder_segment.cpp', 'src/coordinates/basis_changes.cpp']


def fusion(ctx):
    exe = ctx.build("h_fusion", "h_fusion.cpp", FUSION_TUS)
    ctx.model_check("FusionMC")
    cases = ctx.generate("FusionGen", GEN % (ctx.pick(10000, 120000), ctx.seed))
    order = {"kalman": "n m F F2 H Q P R R2 x z z2 bad", "certain": "n P R x z", "still": "x P z R z2 R2 bad", "moving": "x z sd",
             "inv": "m h K s o C A P e w", "seen": "q t u v q2 t2 u2 v2 z P P2 bad",
             "plane": "m1 K1 m2 K2 d zd p rn pd rd bad"}
    recs = both(ctx, exe, cases, lambda c: nums(c["type"], *[c[k] for k in order[c["type"]].split()]), "FusionTrace", "fusion")
    for k in ctx.known:
        if any(r["type"] == "moving" and not r["moving"] and any(z - x > s for x, z, s in zip(r["x"], r["z"], r["sd"])) for r in recs):
            ctx.known_hits.append(k["what"])


def motion(ctx):
    exe = ctx.build("h_motion", "h_motion.cpp", ['src/tracking/motion_model.cpp', 'src/utils/pose.cpp', 'src/utils/angle_utils.cpp'])
    ctx.model_check("MotionMC")
    cases = ctx.generate("MotionGen", GEN % (ctx.pick(8000, 100000), ctx.seed))

    def encode(c):
        if c["type"] == "motion":
            return nums("motion", c["q"], c["m"], len(c["ops"]), *[nums(e["op"], e["p"], e["a"], e["inc"]) for e in c["ops"]])
        order = {"pose": "q t q2 t2 d s m a C", "angles": "ypr one"}
        return nums(c["type"], *[c[k] for k in order[c["type"]].split()])
    both(ctx, exe, cases, encode, "MotionTrace", "motion")


LOCATE_TUS = ['src/coordinates/inverse_depth_coordinates.cpp', 'src/map_management/map_features/map_point.cpp',
              'src/map_management/map_features/map_point2d.cpp', 'src/map_management/map_features/map_primitive.cpp',
              'src/parameters.cpp', 'src/pose_optimization/levenberg_marquardt_functors.cpp',
              'src/pose_optimization/pose_optimization.cpp', 'src/utils/pose.cpp', 'src/utils/angle_utils.cpp',
              'src/outputs/logger.cpp', 'src/utils/camera_transformation.cpp', 'src/utils/distance_utils.cpp',
              'src/coordinates/plane_coordinates.cpp', 'src/coordinates/polygon_coordinates.cpp',
              'src/features/primitives/shape_primitives.cpp', 'src/tracking/plane_with_tracking.cpp',
              'src/utils/covariances.cpp', 'src/utils/polygon.cpp', 'third_party/concave_fitting.cpp',
              'src/coordinates/point_coordinates.cpp', 'src/features/primitives/cylinder_segment.cpp',
              'src/features/primitives/plane_segment.cpp', 'src/features/keypoints/keypoint_handler.cpp',
              'src/tracking/inverse_depth_with_tracking.cpp', 'src/utils/line.cpp', 'src/tracking/point_with_tracking.cpp',
              'src/coordinates/basis_changes.cpp']


def locate(ctx):
    exe = ctx.build("h_locate", "h_locate.cpp", LOCATE_TUS)
    ctx.model_check("LocateMC")
    cases = ctx.generate("LocateGen", GEN % (ctx.pick(600, 6000), ctx.seed))

    def match(m):
        if m["kind"] == "plane":
            return nums("plane", m["invalid"], m["S"], m["K"], m["wn"], m["wd"], m["cn"], m["cd"])
        return nums(m["kind"], m["invalid"], m["S"], m["w"], m["o"], m["z"], m["px"])

    def encode(c):
        if c["type"] == "turn":
            return nums("turn", c["K"], c["q"])
        if c["type"] == "slope":
            return nums("slope", c["n"], c["d"])
        if c["type"] == "shake":
            return nums("shake", c["kind"], c["axis"], c["u"], c["c"])
        if c["type"] == "handed":
            return nums("handed", c["kind"], c["u"], c["z"])
        return nums("locate", c["q"], c["t"], c["q1"], c["t1"], c["dev"], c["wider"], len(c["ms"]), *[match(m) for m in c["ms"]])
    both(ctx, exe, cases, encode, "LocateTrace", "pose", 50)
