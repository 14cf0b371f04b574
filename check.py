#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree (tier from VERIF_TIER or argv)."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib  # noqa: E402
from checks import REGISTRY  # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(vlib.VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                r = json.loads(line)
                if r.get("status") == "known" and r["property"] == prop:
                    out.append(r)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = REGISTRY[prop]
    ctx = vlib.Ctx(prop, tier, seed)
    ctx.known = known_findings(prop)
    rc, viol = 0, 0
    msg = ""
    try:
        mod = importlib.import_module("checks." + spec["module"])
        getattr(mod, spec.get("func", "run"))(ctx, **spec.get("args", {}))
        for k in ctx.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (prop, ctx.cov["states"], ctx.cov["transitions"], ctx.cov["traces_validated_against_impl"],
               time.time() - ctx.t0))
    except vlib.Violation as v:
        rc, viol, msg = 1, 1, str(v)
        rdir = os.path.join(vlib.VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(msg.encode()).hexdigest()[:10]))
        json.dump({"property": prop, "seed": seed, "tier": tier, "message": msg, "replay": v.replay}, open(path, "w"),
                  indent=1)
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    except vlib.CheckError as e:
        rc = 2
        msg = str(e)
        print("CHECK-ERROR property=%s\n%s" % (prop, e))
    except Exception:
        rc = 2
        msg = traceback.format_exc()
        print("CHECK-ERROR property=%s\n%s" % (prop, msg))
    finally:
        ctx.cleanup()
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": ctx.cov, "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": viol}
    if msg:
        ev["message"] = msg[:2000]
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    sys.stdout.flush()
    os._exit(rc)


main()
