"""The registered names, for choosing what to run (the specification has its own table)."""
FAMS = [("SHA2", "256", 0, 32), ("SHA2", "512", 0, 64), ("SHAKE", "256", 1, 32), ("SHAKE", "512", 2, 64),
        ("SHA2", "192", 0, 24), ("SHAKE256", "256", 2, 32), ("SHAKE256", "192", 2, 24)]
SHAPES = [(20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12)]


def names():
    """(name, mt, func, n, h, d)"""
    out = []
    for f, b, fn, n in FAMS:
        for h in (10, 16, 20):
            out.append(("XMSS-%s_%d_%s" % (f, h, b), 0, fn, n, h, 1))
    for f, b, fn, n in FAMS:
        for h, d in SHAPES:
            out.append(("XMSSMT-%s_%d/%d_%s" % (f, h, d, b), 1, fn, n, h, d))
    return out
