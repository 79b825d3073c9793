from reportlab.lib.colors import black, Color

def mmult(A, B):
    """A postmultiplied by B, as the library does"""
    return (A[0] * B[0] + A[2] * B[1], A[1] * B[0] + A[3] * B[1], A[0] * B[2] + A[2] * B[3],
            A[1] * B[2] + A[3] * B[3], A[0] * B[4] + A[2] * B[5] + A[4], A[1] * B[4] + A[3] * B[5] + A[5])

class Shape:
    ATTR = ()
    def _keywords(self, kw):
        for k in kw:
            if k not in self.ATTR:
                raise AttributeError("Illegal attribute '%s' in class %s" % (k, type(self).__name__))
            setattr(self, k, kw[k])

class SolidShape(Shape):
    ATTR = ("fillColor", "strokeColor", "strokeWidth", "strokeLineCap", "strokeLineJoin", "strokeMiterLimit",
            "strokeDashArray", "fillOpacity", "strokeOpacity", "rx", "ry")
    fillColor = black
    strokeColor = black
    strokeWidth = 1
    def paint(self):
        t = lambda c: c.text() if isinstance(c, Color) else "none"
        return "%s %s %r" % (t(self.fillColor), t(self.strokeColor), float(self.strokeWidth or 0))

class Rect(SolidShape):
    def __init__(self, x, y, width, height, rx=0, ry=0, **kw):
        self.x, self.y, self.width, self.height = x, y, width, height
        self._keywords(kw)
    def line(self):
        return "rect %s %r %r %r %r" % (self.paint(), float(self.x), float(self.y), float(self.width), float(self.height))

class Circle(SolidShape):
    def __init__(self, cx, cy, r, **kw):
        self.cx, self.cy, self.r = cx, cy, r
        self._keywords(kw)
    def line(self):
        return "circle %s %r %r %r" % (self.paint(), float(self.cx), float(self.cy), float(self.r))

class String(Shape):
    ATTR = ("fontName", "fontSize", "fillColor", "textAnchor")
    fontName, fontSize, fillColor, textAnchor = "Times-Roman", 10, black, "start"
    def __init__(self, x, y, text, **kw):
        self.x, self.y, self.text = x, y, text
        self._keywords(kw)
    def line(self):
        return "string %r %r %r %s" % (float(self.x), float(self.y), float(self.fontSize), self.text)

class Group(Shape):
    ATTR = ("transform",)
    def __init__(self, *elements, **kw):
        self.contents = []
        self.transform = (1, 0, 0, 1, 0, 0)
        for e in elements:
            self.add(e)
        self._keywords(kw)
    def add(self, node, name=None):
        if not isinstance(node, Shape):
            raise ValueError("Can only add Shape or UserNode objects to a Group")
        self.contents.append(node)
    insert = None
    def scale(self, sx, sy):
        self.transform = mmult(self.transform, (sx, 0, 0, sy, 0, 0))
    def translate(self, dx, dy):
        self.transform = mmult(self.transform, (1, 0, 0, 1, dx, dy))
    def _copy(self, obj):
        obj.contents = list(self.contents)
        obj.transform = self.transform
        return obj
    def copy(self):
        return self._copy(type(self)())
    def line(self):
        return "\n".join(["group %r %r %r %r %r %r" % tuple(float(v) for v in self.transform)] + [e.line() for e in self.contents] + ["end"])

class Drawing(Group):
    ATTR = ("width", "height", "transform", "renderScale", "background")
    def __init__(self, width=400, height=200, *nodes, **kw):
        Group.__init__(self, *nodes, **kw)
        self.width, self.height, self.background = width, height, None
    def copy(self):
        return self._copy(Drawing(self.width, self.height))
    def dump(self, how):
        return "%s\npage %r %r\n%s\n" % (how, float(self.width), float(self.height), self.line())
