"""Configuration and depth images."""
from checks.features import GEN
from checks.geometry import both, nums

DEPTH_TUS = ['src/features/primitives/depth_map_transformation.cpp', 'src/parameters.cpp', 'src/outputs/logger.cpp',
             'src/utils/angle_utils.cpp', 'src/coordinates/point_coordinates.cpp', 'src/utils/covariances.cpp',
             'src/utils/distance_utils.cpp', 'src/coordinates/plane_coordinates.cpp']


def config(ctx):
    exe = ctx.build("h_config", "h_config.cpp", ['src/parameters.cpp', 'src/outputs/logger.cpp', 'src/utils/angle_utils.cpp'])
    ctx.model_check("ConfigMC")
    cases = ctx.generate("ConfigGen", GEN % (ctx.pick(3000, 30000), ctx.seed))
    both(ctx, exe, cases, lambda c: nums(len(c["ops"]), *[nums(e["op"], e["one"], e["two"], e["t"], e["r"], e["omit"]) for e in c["ops"]]),
         "ConfigTrace", "config")


def depthmap(ctx):
    exe = ctx.build("h_depthmap", "h_depthmap.cpp", DEPTH_TUS)
    ctx.model_check("DepthMapMC")
    cases = ctx.generate("DepthMapGen", GEN % (ctx.pick(1500, 20000), ctx.seed))
    both(ctx, exe, cases, lambda c: nums(c["w"], c["h"], c["cell"], c["one"], c["two"], c["t"], c["r"], c["img"]), "DepthMapTrace", "depth images")


PLANE_TUS = ['src/features/primitives/cylinder_segment.cpp', 'src/features/primitives/depth_map_transformation.cpp',
             'src/features/primitives/primitive_detection.cpp', 'src/parameters.cpp', 'src/outputs/logger.cpp',
             'src/utils/angle_utils.cpp', 'src/coordinates/point_coordinates.cpp', 'src/features/primitives/plane_segment.cpp',
             'src/features/primitives/shape_primitives.cpp', 'src/utils/polygon.cpp', 'src/utils/distance_utils.cpp',
             'third_party/concave_fitting.cpp', 'src/utils/covariances.cpp', 'src/coordinates/plane_coordinates.cpp',
             'src/utils/camera_transformation.cpp']


def planes(ctx):
    exe = ctx.build("h_planes", "h_planes.cpp", PLANE_TUS)
    ctx.model_check("PlanesMC")
    cases = ctx.generate("PlanesGen", GEN % (ctx.pick(1200, 12000), ctx.seed) + "CONSTANTS\n  Wc = 32\n  Hc = 24\n")

    def encode(c):
        t = c["type"]
        if t == "scene":
            return nums("scene", len(c["fr"]), *[nums(f["bg"], len(f["rects"]), *[nums(x["x"], x["y"], x["w"], x["h"], x["s"]) for x in f["rects"]])
                                                 for f in c["fr"]])
        if t == "patch":
            return nums("patch", c["q"], c["c"], c["step"], c["e"], c["blank"], c["quiet"], c["jump"])
        if t == "merge":
            return nums("merge", c["q"], c["c"], len(c["at"]), c["at"])
        if t == "join":
            return nums("join", c["q"], c["c"], c["a"], c["m"], c["lim"])
        return nums("hist", len(c["pts"]), c["pts"], len(c["ops"]), c["ops"])
    for c in cases:
        if "c" in c:
            c["at0"] = c["c"]
    both(ctx, exe, cases, encode, "PlanesTrace", "planes", 100)
