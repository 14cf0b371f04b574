#!/usr/bin/env python3
"""Developer helper: single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import REGISTRY
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in mechanism.split(",")]}, "_t": technique, "_n": note})


FM = ["src/map_management/feature_map.hpp"]
FMT = ("TLA+ spec FeatureMap model-checked with TLC; TLC-generated behaviours replayed into the real map template and the "
       "recorded executions validated against the spec by TLC")

prop("C01", "A map feature lives exactly one life: provisional, confirmed, gone",
     "A map feature starts as provisional, becomes confirmed once, in the frame its matched-frame balance reaches the "
     "confirmation threshold, keeps its identity when confirmed, and leaves only by being lost, dropped, converted or reset; "
     "it is never provisional and confirmed at once, never goes back, and an identity is never given to a second feature. "
     "Each processed frame resets the missed count and raises the balance of a feature that was successfully updated, and "
     "does the opposite by exactly one for every other feature; a feature whose confirmation fails stays provisional and "
     "frame processing always terminates.",
     ["histories"], "every history of frames: any detections, matches, rejected matches, failing updates, failing "
     "confirmations, frames without a pose, resets and conversions",
     "The unit tests build no map; the guarantee is over unbounded histories of frames and over what fails in which frame.",
     FM, "IMapFeature counters, update_local_map, update_staged_map, MapIdAllocator", FMT,
     "exhaustive for small maps (all transitions replayed), random long behaviours beyond; features are scripted fakes "
     "behind the template's own interface")
prop("C02", "Matching gives each detection to at most one map feature",
     "In a frame, confirmed features choose before provisional ones, features that are moving or not visible are not matched, "
     "no detection is given to two features, and exactly the chosen pairs are handed to the pose estimation (provisional "
     "ones only while fewer than three times the needed pairs were found); if too few pairs are found the wider search "
     "replaces the first one completely. Rejecting a pair as outlier frees exactly that detection of exactly that feature, "
     "and only features of the rejected kind are touched; the features offered for tracking in the next frame are exactly "
     "the confirmed, still matched and visible ones.",
     ["histories", "inputs"], "every set of detections, candidate sets, visibility and movement, visiting order and outlier set",
     "Depends on the whole candidate relation and on hash-map iteration order; the tests never run the matcher.",
     FM, "Feature_Map::get_matches, mark_outliers_as_unmatched, get_tracked_features", FMT,
     "all visiting orders of contested detections are allowed by the spec; bounded candidate relations")
prop("C03", "Every unused detection becomes exactly one provisional feature",
     "After a frame with a pose, each detection that did not update a confirmed feature and was not matched to a provisional "
     "one, and that may be added to the map, becomes exactly one new blank provisional feature; all other detections create "
     "nothing. When tracking is lost every admissible detection does, and existing features are left untouched.",
     ["histories", "inputs"], "every combination of detections, matches, failing updates, refused and failing creations",
     "The set of detections left over depends on the whole frame history; no test runs the map.",
     FM, "update_map's used index set, add_features_to_staged_map, add_all_features_to_staged_map", FMT,
     "exhaustive for small maps, random long behaviours beyond")
prop("C04", "Failed frames, invalid poses, resets and deactivated maps act as promised",
     "A frame without a pose unmatches every feature and counts one miss for each; an update or insertion given an invalid "
     "pose covariance is refused with an error and changes nothing, while a valid one is never refused. A reset leaves an "
     "empty map that keeps working, and frame processing on a deactivated map matches, offers, adds, exports and removes nothing.",
     ["histories", "fault_sequences"], "every map content and every point of the history at which the failure, reset or "
     "deactivation happens",
     "Tests do not drive failing frames at all; the effect depends on the content at that moment.",
     FM, "update_with_no_tracking, covariance guards, reset, _isActivated guards", FMT,
     "exhaustive for small maps, random long behaviours beyond")
prop("C05", "Every confirmed feature is exported exactly once",
     "A confirmed, non-moving feature that is lost is written to the map output exactly once, at the moment it leaves, and "
     "when the map is closed each remaining confirmed feature is written exactly once. Provisional features are never "
     "written, and no feature is written twice.",
     ["histories"], "every history of frames ended by closing the map",
     "Needs the complete life of each feature; no test looks at what the map exports.",
     FM + ["src/map_management/local_map.hpp"], "write_to_file calls in update_local_map, "
     "update_local_map_with_no_tracking, destroy", FMT, "moving features may or may not be exported when they leave")
prop("C07", "Converting features between maps loses and duplicates nothing",
     "When features are ready to be converted to another kind, each of them is removed from its map and handed over exactly "
     "once with its current matches, features that are not ready or whose conversion yields nothing stay, and the receiving "
     "map takes exactly the features of its own kind, each once, under a fresh identity, leaving its other features untouched.",
     ["histories"], "every map content, readiness and kind of the converted features",
     "No test runs the conversion; it depends on which features of which map are ready at the same time.",
     FM + ["src/map_management/local_map.hpp"], "get_upgraded_features, add_upgraded_features", FMT,
     "exhaustive for small maps, random long behaviours beyond")


exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
na = [x for x in globals().get("NOT_APPLICABLE", [])]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "", "enable": "none: the machinery needs no hooks in the repository", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"], "technique": p["_t"],
                   "level": REGISTRY[p["id"]]["level"], "level_note": p["_n"]} for p in P if p["id"] in REGISTRY],
       "not_applicable": na}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
ids = {p["id"] for p in P}
print(len(P), "properties;", [p for p in REGISTRY if p not in ids], "checks without property;",
      [i for i in ids if i not in REGISTRY and i not in {n["property"] for n in na}], "unclaimed")
