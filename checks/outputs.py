"""C06: the real map writers against spec/MapFile.tla."""
from vlib import CheckError, flat

GEN = "SPECIFICATION Spec\nCONSTANTS\n  Num = %d\n  Seed = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"
BAD = 2000000001


def thousandths(tok):
    try:
        v = 1000 * float(tok)
        return round(v) if abs(v - round(v)) < 1e-4 and abs(v) < BAD else BAD
    except (ValueError, OverflowError):
        return BAD


def whole(tok):
    return int(tok) if tok.isdigit() and len(tok) < 9 else BAD


def tokens(lines, w):
    """A reader's view of the lines: keyword and numbers (coordinates in thousandths)."""
    out = []
    for line in lines:
        t = line.split()
        if not t or t[0].startswith("#"):
            continue
        if w == "obj":
            key, rest = t[0], t[1:]
            if key in ("vn", "vt", "g", "o", "s", "usemtl", "mtllib"):
                continue
            # element references may carry /texture/normal indexes
            out.append({"t": key, "n": [thousandths(x) for x in rest] if key == "v" else [whole(x.split("/")[0]) for x in rest]})
        elif w == "pcd" and t[0].isalpha():
            out.append({"t": t[0], "n": [whole(x) for x in t[1:]] if t[0] == "POINTS" else []})
        else:
            out.append({"t": "data", "n": [thousandths(x) for x in t]})
    return out


def files(ctx):
    exe = ctx.build("h_mapfile", "h_mapfile.cpp", ["src/outputs/map_writer.cpp", "src/outputs/logger.cpp"])
    ctx.model_check("MapFileMC")
    cases = ctx.generate("MapFileGen", GEN % (ctx.pick(2500, 25000), ctx.seed))
    text = ["%s %s %d %s" % (c["w"], c["name"].replace(" ", "?"), len(c["items"]), " ".join("%s %s" % (i["k"], flat(i["c"])) for i in c["items"])) for c in cases]
    ans = ctx.run_harness(exe, "%d\n%s\n" % (len(cases), "\n".join(text)), "exports")
    if len(ans) != len(cases):
        raise CheckError("harness answered %d of %d" % (len(ans), len(cases)))
    recs = [dict(c, file=tokens(a["lines"], c["w"])) for c, a in zip(cases, ans)]
    ctx.sample({"case": recs[-1]})
    ctx.validate("MapFileTrace", recs, what="exports", chunk=max(300, len(recs) // 8 + 1))
