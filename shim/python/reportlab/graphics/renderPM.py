def drawToFile(d, fn, fmt='GIF', dpi=72, bg=0xffffff, configPIL=None, showBoundary=None, **kw):
    if fmt.upper() not in ('GIF', 'TIFF', 'TIF', 'JPG', 'JPEG', 'PNG', 'BMP', 'PCT', 'PICT', 'PPM'):
        raise ValueError("renderPM: cannot render format %s" % fmt)
    with open(fn, "w") as f:
        f.write(d.dump("pixel %s %r" % (fmt.lower(), float(dpi))))
