REGISTRY = {}


def _r(prop, module, func="run", level="model_checking", **args):
    REGISTRY[prop] = {"module": module, "func": func, "level": level, "args": args}


for _p in ("C01", "C02", "C03", "C04", "C05", "C07"):
    _r(_p, "featuremap")

_r("C11", "ransac", "search")
_r("C12", "ransac", "spread")
_r("C14", "keypoints")
_r("C08", "features", "life")
_r("C09", "features", "match")
_r("C06", "outputs", "files")
_r("C10", "slam", "sessions")
_r("C13", "geometry", "frames")
_r("C15", "geometry", "lines")
_r("C16", "geometry", "uncertainty")
_r("C17", "estimation", "fusion")
_r("C18", "estimation", "motion")
_r("C19", "system", "config")
_r("C20", "system", "depthmap")
_r("C21", "geometry", "shapes")
_r("C22", "system", "planes")
_r("C23", "estimation", "locate")
