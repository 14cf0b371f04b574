"""C01-C05, C07: the real Feature_Map template against spec/FeatureMap.tla."""
from vlib import flat

TUS = ["src/outputs/map_writer.cpp", "src/outputs/logger.cpp"]


def to_text(op):
    k = op["op"]
    if k in ("new", "reset", "deactivate", "destroy"):
        return k
    order = {"match": ["n", "min", "visible", "moving", "cand", "wide"],
             "outliers": ["pairs", "foreign"],
             "update": ["badcov", "moving", "badpromo", "badids", "bad"],
             "notrack": ["moving"],
             "stage": ["badcov", "all", "addable", "badctor"],
             "upgrade": ["ready", "null"],
             "addup": ["ups"],
             "many": ["count"],
             "tracked": ["visible"]}[k]
    return k + " " + " ".join(flat(op[x]) for x in order)


def drop_prefixes(scripts):
    """Keep only scripts that are not prefixes of another one."""
    import json
    keyed = sorted((tuple(json.dumps(o, sort_keys=True) for o in s), s) for s in scripts)
    out = []
    for i, (k, s) in enumerate(keyed):
        if i + 1 < len(keyed) and keyed[i + 1][0][:len(k)] == k:
            continue
        out.append(s)
    return out


def execute(ctx, exe, scripts, params, what):
    ops = [o for s in scripts for o in s]
    text = " ".join(map(str, params)) + "\n" + "\n".join(to_text(o) for o in ops) + "\n"
    rows = ctx.run_harness(exe, text, what, timeout=60)
    if len(rows) != len(ops):
        from vlib import CheckError
        raise CheckError("harness answered %d of %d operations" % (len(rows), len(ops)))
    recs, n, moving = [], 0, []
    for o, r in zip(ops, rows):
        rec = dict(r)
        rec.update(o)
        if o["op"] == "new":
            n, moving = 0, []
        if o["op"] == "match":
            n = o["n"]
        if "moving" in o:
            moving = o["moving"]
        rec["n"], rec["moving"] = n, moving
        recs.append(rec)
    return recs


def cfg(params, tail):
    drop = "= %d" % params[2] if params[2] >= 0 else "<- Neg%d" % -params[2]
    return "SPECIFICATION Spec\nCONSTANTS\n  LostAfter = %d\n  PromoteAt = %d\n  DropAt %s\n%s" % (
        params[0], params[1], drop, tail)


def chunks(recs, size):
    out, cur = [], []
    for r in recs:
        if r["op"] == "new" and len(cur) >= size:
            out.append(cur)
            cur = []
        cur.append(r)
    out.append(cur)
    return out


def run(ctx):
    exe = ctx.build("h_featuremap", "h_featuremap.cpp", TUS)
    ctx.model_check("FeatureMapMC", timeout=600)
    params = (1, 2, 0)
    tail = "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    # every transition of two small models, replayed
    for ids, det, depth in ctx.pick([(2, 2, 9), (1, 1, 17)], [(2, 2, 13), (1, 1, 24), (3, 1, 12)]):
        small = cfg(params, "  MaxId = %d\n  MaxDet = %d\n  Min = 1\n  Depth = %d\n  Emit = TRUE\nVIEW view\nCONSTRAINT Bound\n"
                    "ACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\n" % (ids, det, depth))
        scripts = drop_prefixes(ctx.generate("FeatureMapMC", small))
        recs = execute(ctx, exe, scripts, params, "every transition of the small model")
        ctx.sample({"script": scripts[len(scripts) // 2], "observed": recs[5]})
        validate(ctx, recs, params, tail, "model transitions", len(scripts))
    # long random behaviours with a rich environment, several thresholds
    for k, (params, ids, det, length, style, num) in enumerate([
            ((1, 2, 0), 24, 4, 48, 0, 60), ((2, 3, -1), 30, 5, 48, 0, 60), ((0, 1, 0), 20, 3, 48, 0, 60), ((3, 2, -2), 30, 4, 48, 0, 60),
            ((30, 5, -15), 3, 2, 220, 70, 6), ((2, 2, -1), 420, 90, 17, 1, 3), ((2, 3, -2), 760, 240, 13, 1, 1)]):
        c = cfg(params, "  MaxId = %d\n  MaxDet = %d\n  Len0 = %d\n  Style = %d\nINVARIANTS Disjoint\nCHECK_DEADLOCK FALSE\n"
                % (ids, det, length, style))
        scripts = ctx.generate("FeatureMapSim", c, extra=["-simulate", "num=%d" % (num * ctx.pick(1, 8)), "-depth", str(length + 12), "-seed",
                                                          str(ctx.seed * 10 + k)])
        if k == 0 and ctx.prop == "C01":
            scripts.append([{"op": "new"}, {"op": "many", "count": 3000000}])
        recs = execute(ctx, exe, scripts, params, "random behaviours %s" % (params,))
        validate(ctx, recs, params, tail, "random behaviours", len(scripts))


def validate(ctx, recs, params, tail, what, ntraces):
    import concurrent.futures as cf
    parts = chunks(recs, max(500, len(recs) // 8 + 1))
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(ctx.validate, "FeatureMapTrace", p, cfg(params, tail), {"FOCUS": ctx.prop},
                          "%s %s #%d" % (what, params, i), 700, None, lambda r: r["op"] == "new", 0)
                for i, p in enumerate(parts)]
        for f in futs:
            f.result()
    ctx.cov["traces_validated_against_impl"] += ntraces
