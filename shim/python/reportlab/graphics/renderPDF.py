def drawToFile(d, fn, msg="", showBoundary=None, autoSize=1, **kw):
    with open(fn, "w") as f:
        f.write(d.dump("pdf"))
