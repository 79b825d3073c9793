G = "rct_image_tools/script/calibration_target.py"
BUGS = []
def bug(**k): BUGS.append(k)
SH = """#!/bin/bash
# exit 0: the property holds for this demonstration; anything else: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=/tmp/rct-seed-{id}
mkdir -p $w
cp "$PWD/rct_image_tools/script/calibration_target.py" $w/calibration_target.py
(cd $w && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d/python:$w" timeout 120 python3 "$d/demo.py")
r=$?
rm -rf /tmp/rct-seed-{id}
exit $r
"""
def g(id, demo, **k):
    bug(id=id, property="C26", file=G, copy=[("shim/python", "python")], sh=SH.format(id=id), files={"demo.py": demo}, **k)
L = "\r\n"
g("c26-mark-invisible-inverted", r'''
import sys, calibration_target as t
from reportlab.lib.colors import black
d = t.dotTarget((4, 3), 25, invert=True)
marks = [s for s in d.drawing.contents if hasattr(s, "r") and s.r < 0.1*d.dotSize]
if len(marks) != 12 or any(s.fillColor.text() != black.text() for s in marks):
    sys.exit("BROKEN: an inverted target has white marks on white dots")
''', old="fillColor=self.colorBackground, strokeColor=self.colorBackground, strokeWidth=0))"+L+L, new="fillColor=white, strokeColor=white, strokeWidth=0))"+L+L,
 needs="an inverted dot target", breaks="the centre marks are drawn white on white dots, so that they do not exist")
g("c26-footer-moves-later-targets", r'''
import sys, calibration_target as t
a = t.checkerTarget((3, 4), 20)
first = min(s.y for s in a.drawing.contents)
a.addTextFooter()
b = t.checkerTarget((3, 4), 20)
b.addTextFooter("x")
if abs(min(s.y for s in b.drawing.contents if hasattr(s, "width")) - first) > 1e-9 or b.drawing.height != a.drawing.height:
    sys.exit("BROKEN: a target differs from an equal one that was made before a footer was added")
''', old="    self.drawing.add(String(self.margins[0], self.margins[1]/2, str,", new="    calTarget.margins = (self.margins[0], max(self.margins[1], 3.5*self.fontSize))"+L+"    self.drawing.add(String(self.margins[0], self.margins[1]/2, str,",
 needs="a target that is made after a footer was added to another one", breaks="the margin of all later targets grows, so that equal targets are drawn differently")
g("c26-big-dot-at-last-row", r'''
import sys, calibration_target as t
for n in ((4, 3), (3, 3), (3, 4), (2, 7)):
    d = t.dotTarget(n, 25)
    c = [s for s in d.drawing.contents if hasattr(s, "r")]
    big = max(c, key=lambda s: s.r)
    if big.cy > min(s.cy for s in c) + 1e-9 or big.cx > min(s.cx for s in c) + 1e-9:
        sys.exit("BROKEN: the large dot of a %dx%d target is not at its origin" % n)
''', old="    self.drawing.add(Circle(off[0], off[1], self.dotSize, ", new="    self.drawing.add(Circle(off[0], off[1]+(self.gridSpacing[1]*(self.gridCount[1]-1) if self.gridCount[1] > self.gridCount[0] else 0), self.dotSize, ",
 needs="a target with more rows than columns", breaks="the large dot is drawn at the top left instead of the origin, such that the finder labels all dots wrongly")
