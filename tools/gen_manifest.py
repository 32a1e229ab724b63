"""Writes MANIFEST.json: a property is claimed when pbt/checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": ("model-based stateful property testing against a numpy list model", "histories of 3-14 operations over batches of up to 3 clouds of 5 points, some of 60 operations, 5000 points or 40 clouds"),
 "C02": ("property-based differential testing against per-point numpy formulas", "batches of up to 3 clouds of 5 points, some of 5000 points or 40 clouds, every documented operand shape"),
 "C03": ("model-based property testing with later mutation of either side", "small batches; aliasing detected by writing through one side"),
 "C04": ("property-based differential testing against a float64 numpy model, plus metamorphic relations", "images up to 6 x 7, some 130 x 130; normals compared where well-conditioned"),
 "C05": ("model-based stateful property testing against freshly computed maps", "histories of up to 8 operations over several objects"),
 "C06": ("property-based differential testing against direct pixel selection", "images up to 6 x 7, some 130 x 130"),
 "C07": ("property-based round-trip and differential testing against the pinhole equations", "pinhole intrinsics without skew"),
 "C08": ("property-based testing of group laws against scipy/numpy", "float32 tolerance reflects the formulas' conditioning"),
 "C09": ("property-based differential testing against brute-force nearest neighbours and analytic rows", "clouds of up to 40 points without ambiguous neighbours"),
 "C10": ("property-based metamorphic testing and differential testing against a numpy reference registration", "well-constrained random targets, small motions"),
 "C11": ("property-based differential testing per batch element", "small clouds"),
 "C12": ("property-based differential testing against a brute-force association model", "small images and maps away from decision boundaries"),
 "C13": ("property-based differential testing against a numpy fusion model", "small images and maps away from decision boundaries"),
 "C14": ("model-based and metamorphic property testing of whole SLAM runs", "sequences of up to 4 small frames"),
 "C15": ("metamorphic and composition property testing of whole SLAM runs", "sequences of up to 4 small frames of well-constrained scenes"),
 "C16": ("property-based testing of gradients against directional finite differences", "float32 forward code, differences away from kinks"),
 "C17": ("property-based differential testing against direct selection", "images up to 6 x 7, some 130 x 130"),
 "C18": ("generated dataset directories against a reference reader", "sequences of up to 14 frames written to a scratch directory"),
 "C19": ("generated dataset directories against a reference reader", "sequences of up to 14 frames written to a scratch directory"),
 "C20": ("generated dataset directories against a reference reader", "sequences of up to 8 frames written to a scratch directory"),
 "C21": ("property-based differential testing against numpy formulas", "small arrays"),
 "C22": ("property-based testing against a dictionary model", "nested configurations of depth up to 3"),
 "C23": ("property-based round-trip and aliasing testing", "nested configurations of depth up to 3"),
 "C24": ("property-based differential testing of exported figures", "open3d replaced by a stand-in holding arrays"),
 "C26": ("property-based round-trip and differential testing against numpy padding", "up to 6 matrices of up to 5 x 4, some of 1500 rows"),
 "C27": ("end-to-end property testing of generated dataset directories against poses and maps computed from the written files", "windows of up to 3 frames, images up to 13 x 16"),
 "C28": ("metamorphic and stateful property testing: repeated, interleaved and rearranged calls against the plain call", "arguments of a few elements, 2-3 short sequences per SLAM object"),
 "C29": ("differential and stateful property testing across devices, with graphics cards simulated by a torch function mode", "arguments of a few elements; tours of up to 4 moves"),
 "C30": ("property-based testing of invariants over generated degenerate frames, clouds and formula arguments", "up to 4 frames of up to 6 x 7 pixels, clouds of up to 8 points"),
 "C31": ("property-based differential testing of calls with arguments named, positional or omitted", "about 65 entry points, inputs of a few points or pixels"),
 "C32": ("metamorphic property-based testing: batches reordered, reduced, repeated and with other elements replaced", "batches of up to 5 elements, frames of up to 5 x 6 pixels"),
 "C33": ("metamorphic property-based testing: changes of unit, world frame, colors, image orientation and point order", "frames of up to 8 x 8 pixels, sequences of up to 4 frames, units 2^-4 to 2^6"),
 "C34": ("property-based testing: duplicates of objects with a history against the original, worker processes against one process, drawn thread schedules against one after the other", "objects and frames of the sizes of C01, C05, C15, C18-C20; 2 to 3 threads with switches at drawn lines; 1 to 3 workers"),
 "C25": ("structure-aware fuzzing of arguments against a validity model", "malformations listed in DESIGN.md"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "pbt/checks/%s.py" % i.lower())):
        t, n = NOTE[i]
        cmd = "/opt/venv/bin/python pbt/run.py %s" % i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % i, technique=t, level="exploration",
                           level_note="Randomised search of the stated input space, failures shrunk to a replay file; bounds: %s. "
                                      "CPU tensors; open3d replaced by an in-process stand-in." % n))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the public API of the working tree."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
