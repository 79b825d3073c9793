#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds /verif/seeded/<id>/ directories from a spec (list BUGS of dicts).
Each bug: id, property, file, old, new (or edits=[(file, old, new)]), needs, breaks, demo (C++ source), extra (g++ flags), libs
Nothing is left in /repo: the patch is made in memory with difflib."""
import sys, os, difflib, json, runpy, shutil
REPO = "/repo"
OUT = "/verif/seeded"
SH = """#!/bin/bash
# exit 0: the property holds for this demonstration; anything else: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=/tmp/rct-seed-{id}
mkdir -p $w
g++ -std=c++17 -O1 -w {extra}-Irct_common/include -Irct_optimizations/include -Irct_image_tools/include \\
  -I/usr/include/eigen3 -I/usr/include/opencv4 "$d/demo.cpp" -o $w/demo \\
  -L_build -Wl,-rpath,"$PWD/_build" {libs} -lboost_filesystem -lceres -lglog -lyaml-cpp || exit 3
timeout 120 $w/demo
r=$?
rm -rf /tmp/rct-seed-{id}
exit $r
"""
LIB = {"opt": "-lrct_optimizations", "img": "-lrct_image_tools -lrct_optimizations -lopencv_core -lopencv_imgproc -lopencv_calib3d -lopencv_imgcodecs -lopencv_features2d -lopencv_aruco"}
spec = runpy.run_path(sys.argv[1])
for b in spec["BUGS"]:
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    byfile = {}
    for f, old, new in edits:
        cur = byfile.get(f) or (open(os.path.join(REPO, f), newline="").read(),) * 2
        assert cur[1].count(old) == 1, (b["id"], f, cur[1].count(old), old)
        byfile[f] = (cur[0], cur[1].replace(old, new))
    patch = ""
    for f, (a, c) in byfile.items():
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
    d = os.path.join(OUT, b["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline="").write(patch)
    if "demo" in b:
        open(d + "/demo.cpp", "w").write(spec.get("PRE", "") + b["demo"])
    for n, t in b.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    sh = b.get("sh") or SH.format(id=b["id"], extra=(b.get("extra", "") + " ").lstrip(), libs=LIB[b.get("libs", "opt")])
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    for src, dst in b.get("copy", []):  # headers of the check that the demonstration brings along
        shutil.rmtree(d + "/" + dst, ignore_errors=True)
        (shutil.copytree if os.path.isdir("/verif/" + src) else shutil.copy)("/verif/" + src, d + "/" + dst)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"])
