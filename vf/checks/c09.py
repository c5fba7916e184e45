"""C09: each one-time key at each layer signs one value only."""
from .. import base
from ..base import THOROUGH
from ..common import lib, check_traces, model_ok, model_rejects, rng
from ..params import names, FAMS
from ._index import field, fieldbytes, CUSTOM
from .c01 import legal

LEVEL = "model_checking"


def spread(R, h, ib, n_extra=4):
    """Indices that differ from one another in single bits, anywhere in the index."""
    x = R.randrange(1 << h)
    out = [x] + [x ^ (1 << b) for b in range(h)]
    y = R.randrange(1 << h)
    out += [y] + [y ^ (1 << b) for b in R.sample(range(h), min(h, n_extra))]
    lim = (1 << h) - (2 if h == 8 * ib else 1)      # using the last one would end the key
    seen = []
    for v in out:
        if v < lim and v not in seen:
            seen.append(v)
    return seen


def run(rep):
    R = rng("c09")
    fs, rs = lib(True), lib(False)
    G = []
    lives = [[0, 24, 4, d * th, d, k] for d, ths in ((2, (2, 3, 4, 5)), (3, (2, 3)), (4, (2, 3)), (5, (2,)), (1, (5, 8)))
             for th in ths for k in (0, 1, 2) if k <= th and legal(th, d, k)]
    lives += [[0, 32, 16, 6, 3, 0], [0, 64, 4, 6, 2, 0], [0, 24, 256, 6, 2, 0], [2, 24, 16, 6, 3, 0], [1, 32, 4, 6, 2, 0]]
    for c in lives:
        j = dict(params=c, seed=R.getrandbits(40), count="all", layers=True, forks=5, lens=[16, 0, 60])
        G.append((fs, [dict(j, id="fast%s" % c)]))
        if c[5] == 0 and c[3] <= 9:
            G.append((rs, [dict(j, id="ref%s" % c)]))
    H = [(fs, [dict(id="fast20/4", params=[0, 24, 4, 20, 4, 0], seed=R.getrandbits(40), count=70000 if THOROUGH else 33000,
                    layers=True, forks=50, lens=[16], verify=False)])]
    for nm, cnt in (("XMSSMT-SHA2_20/2_192", 1100), ("XMSSMT-SHA2_60/12_256", 1100), ("XMSSMT-SHAKE256_40/8_256", 1100),
                    ("XMSSMT-SHA2_20/4_512", 70), ("XMSSMT-SHAKE_20/4_512", 70)):
        H.append((fs, [dict(id="fast" + nm, params=nm, seed=R.getrandbits(40), count=cnt, layers=True, forks=9,
                            lens=[16], verify=False)]))
    # far-apart indices of one key
    for c in CUSTOM:
        fn, n, w, h, d, k = c
        ib = fieldbytes(d > 1, h)
        G.append((rs, [dict(id="ref far %s" % (c,), params=list(c), seed=R.getrandbits(40), layers=True, jumpmode="all",
                            jumps=[field(v, ib) for v in spread(R, h, ib)], count=9999, lens=[8])]))
    for nm, mt, fn, n, h, d in names():
        ib = fieldbytes(mt, h)
        j = dict(params=nm, seed=R.getrandbits(40), layers=True, count=9999, lens=[8], verify=False, fabricate=True)
        G.append((fs, [dict(j, id="fast far " + nm, jumpmode="bottom", jumps=[field(v, ib) for v in spread(R, h, ib)])]))
        if h // d <= 5 and (n == 24 or THOROUGH):
            G.append((rs, [dict(j, id="ref far " + nm, jumpmode="all", jumps=[field(v, ib) for v in spread(R, h, ib)])]))
    check_traces(rep, "TraceKey", H + G, timeout=7000 if THOROUGH else 600, name="one-time keys", tlc_kw={"mem": "12g"})
    # which one-time keys indices select, on many layers: the secrets that are derived
    P = []

    def keys(fast, params, how, **kw):
        P.append((fs if fast else rs, [dict(kind="places", id="%s %s %s" % ("fast" if fast else "ref", params, how), params=params,
                                            seed=R.getrandbits(40), only_keys=True, **kw)]))

    for fast, d, th in ((True, 5, 2), (False, 6, 1), (False, 9, 1), (True, 4, 2), (False, 5, 2)):
        keys(fast, [0, 24, 4, d * th, d, 0], "keys", count="all")
    for h, d in ((64, 32), (62, 31), (40, 20), (34, 17), (60, 20), (20, 10)):
        ib = fieldbytes(True, h)
        for fast in (False, True):
            keys(fast, [0, 24, 4, h, d, 0], "keys far", count=99, fabricate=fast,
                 jumps=[field(v, ib) for v in sorted(spread(R, h, ib, 1)[:(24 if fast else 8)])])
    for nm, mt, fn, n, h, d in names():
        if h // d == 5 and d > 4 and (n == 24 or THOROUGH):
            ib = fieldbytes(mt, h)
            keys(False, nm, "keys far", count=99, jumps=[field(v, ib) for v in R.sample(spread(R, h, ib), 2)])
    check_traces(rep, "TracePlaces", P, timeout=5000 if THOROUGH else 600, name="selected keys", tlc_kw={"mem": "12g"})
    if not rep.violations:
        r = base.tlc("Bds", consts={"Configs": "{20200,30200,40200,20300,30300,20400,20500,40201}", "Limit": 1100000,
                                    "OldStarvation": "FALSE"})
        model_ok(rep, "Bds", r, "signatures contain the stored one-time signature of the right key, path and root")
    rep.cov["rule"] = ("whole lives with forked copies of the key; signatures at indices differing in every single bit; "
                       "one-time keys are told apart by (layer, tree, leaf)")
    rep.cov["exhaustive"] = False
