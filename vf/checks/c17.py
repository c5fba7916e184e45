"""C17: every hash of a key has an address of its own."""
from .. import base
from ..base import THOROUGH
from ..common import lib, thin, check_traces, model_ok, model_rejects, rng
from ..params import names
from ._index import field, fieldbytes
from .c01 import legal

LEVEL = "model_checking"
GOOD = "SPECIFICATION Spec\nINVARIANTS OnePlace Legal Complete Injective\nCHECK_DEADLOCK FALSE\n"


def far(R, h, ib, extra=3):
    """An index, ones that differ from it in one bit of the tree number, and other ones."""
    x = R.randrange(1 << h)
    l = [x] + [x ^ (1 << b) for b in R.sample(range(h), min(h, extra)) + [h - 1, max(0, h - 17)]]
    lim = (1 << h) - (2 if h == 8 * ib else 1)
    return sorted({v for v in l if v < lim})


def run(rep):
    R = rng("c17")
    for D, TH, LEN, WW in ((3, 1, 3, 3), (1, 2, 5, 2), (1, 3, 4, 2), (2, 1, 7, 2)) + (((2, 2, 4, 2),) if THOROUGH else ()):
        con = dict(D=D, TH=TH, LEN=LEN, WW=WW, Base=2, Digits=max(2, TH * (D - 1)), Mode='"good"')
        model_ok(rep, "Places", base.tlc("Places", cfg=GOOD, consts=con), "every history; %d layers of height %d" % (D, TH))
    for mode in ("no layer", "tree cut", "no type", "no leaf", "chain in part"):
        con = dict(D=3, TH=1, LEN=3, WW=3, Base=2, Digits=2, Mode='"%s"' % mode)
        model_rejects(rep, "Places", base.tlc("Places", cfg=GOOD.replace(" Injective", ""), consts=con), "addresses: " + mode, "OnePlace")
    fs, rs = lib(True), lib(False)
    G = []

    def add(fast, params, how, **kw):
        G.append((fs if fast else rs, [dict(kind="places", id="%s %s %s" % ("fast" if fast else "ref", params, how), params=params,
                                            seed=R.getrandbits(40), **kw)]))

    # whole lives
    for d, th in ((2, 2), (3, 2), (1, 4), (2, 3), (1, 6), (4, 2)) + (((5, 2), (3, 3), (2, 4)) if THOROUGH else ()):
        for k in range(3):
            if k <= th and legal(th, d, k):
                add(True, [0, 24, 4, d * th, d, k], "life", count="all")
    for c in ([0, 24, 4, 4, 2, 0], [0, 24, 4, 6, 3, 0], [0, 24, 4, 4, 1, 0], [0, 32, 16, 2, 1, 0], [1, 32, 4, 4, 2, 0],
              [2, 24, 4, 4, 2, 0], [0, 64, 4, 2, 1, 0]):
        add(False, c, "life", count="all")
    for c in ([0, 64, 4, 4, 2, 0], [1, 32, 16, 4, 2, 0], [2, 64, 4, 4, 2, 0], [2, 32, 4, 6, 3, 0], [0, 24, 256, 2, 1, 0]):
        add(True, c, "life", count="all")
    # indices far apart
    for h, d in ((64, 32), (62, 31), (40, 20), (34, 17), (60, 20), (36, 12)):
        for v in range(2 if THOROUGH else 1):
            c, ib = [0, 24, 4, h, d, 0], fieldbytes(True, h)
            add(False, c, "far %d" % v, count=99, jumps=[field(x, ib) for x in far(R, h, ib, 1)])
            add(True, c, "far %d" % v, count=99, fabricate=True, jumps=[field(x, ib) for x in far(R, h, ib, 6)])
    for nm, mt, fn, n, h, d in names():
        if h // d == 5 and (n == 24 or THOROUGH):
            ib = fieldbytes(mt, h)
            add(False, nm, "far", count=99, jumps=[field(x, ib) for x in far(R, h, ib, 0)[:2]])
            if h == 20:
                add(True, nm, "begin", count=1100 if THOROUGH else 70)
        if h // d > (10 if THOROUGH else 5) and n != 24:
            continue
        ib = fieldbytes(mt, h)
        add(True, nm, "far", count=99, fabricate=True, jumps=[field(x, ib) for x in far(R, h, ib, 2)])
    # the tallest trees, with cheap leaves: one in 256 of their nodes
    tf, tr = thin(True), thin(False)
    if tf and tr:
        M, T = 1 << 20, []
        for l, h, d, k, plan in ((tf, 40, 2, 0, M + (1 << 18)), (tf, 20, 1, 0, M - 9), (tf, 20, 1, 4, M >> 2), (tr, 20, 1, 0, 1), (tr, 60, 3, 0, 1)) + (
                ((tf, 60, 3, 0, 2 * M), (tf, 40, 2, 4, 2 * M), (tr, 40, 2, 0, 1)) if THOROUGH else ()):
            T.append((l, [dict(kind="places", id="%s tall %d/%d,%d" % ("fast" if l == tf else "ref", h, d, k), params=[0, 24, 4, h, d, k, 1],
                               seed=R.getrandbits(40), sample=[255, R.randrange(256)], fabricate=l == tr, inner=True,
                               count=0 if l == tf else 1, plan=[[plan, 199]] if l == tf else [],
                               jumps=None if l == tf else [field(R.randrange(1 << h), fieldbytes(d > 1, h))])]))
        G = T + G
    rep.cov["tall_trees"] = bool(tf and tr)
    check_traces(rep, "TracePlaces", G, timeout=5000 if THOROUGH else 600, name="addresses", tlc_kw={"mem": "12g"})
    rep.cov["rule"] = "all keyed hash calls of whole lives of small keys, and at indices far apart of tall ones, by address"
    rep.cov["exhaustive"] = False
    rep.assumptions += ["20-high trees run with a one-time signature of one hash call in the place of wots.c (harness/thinwots.c)"]
    rep.assumptions += ["hash calls are seen at the primitive functions, for which a stand-in is linked",
                        "far-away states of the state-keeping signer are made up; tree nodes are left out there"]
