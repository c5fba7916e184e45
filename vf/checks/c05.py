"""C05: both signing implementations produce identical keys and signatures."""
from ..base import THOROUGH
from .. import base
from ..common import lib, thin, check_traces, model_ok, model_rejects, rng
from ..params import names, FAMS
from ._index import field, fieldbytes
from .c01 import legal

LEVEL = "model_checking"
LENS = [32, 0, 1, 55, 64, 100, 128, 200, 300]


def run(rep):
    R = rng("c05")
    fs, rs = lib(True), lib(False)
    fr, rr = lib(True, "real"), lib(False, "real")
    G, H = [], []

    def pair(L, real, params, **kw):
        a, b = (fr, rr) if real else (fs, rs)
        j = dict(kind="pair", lib2=b, id="%s %s %d" % ("real" if real else "stub", params, len(G) + len(H)), params=params,
                 seed=R.getrandbits(40), count="all", lens=LENS)
        j.update(kw)
        L.append((a, [j]))

    # 1. whole lives, two keys from the same random bytes
    for th, ds in ((2, (1, 2, 3, 4)), (3, (1, 2, 3)), (4, (1, 2)), (5, (1, 2)), (6, (1,)), (7, (1,)), (8, (1,))):
        for d in ds:
            for k in range(th + 1):
                if legal(th, d, k) and (th * d < 9 or k == 0 or THOROUGH):
                    pair(G, False, [0, 24, 4, th * d, d, k], again=7 if th * d < 7 else 50)
    for c in ([0, 32, 16, 6, 3, 0], [0, 64, 4, 6, 2, 0], [0, 24, 256, 4, 2, 0], [2, 24, 16, 6, 2, 1], [1, 32, 4, 6, 3, 0],
              [2, 64, 16, 4, 2, 2], [2, 32, 4, 5, 1, 1], [0, 32, 256, 4, 1, 2], [0, 24, 4, 10, 5, 0]):
        pair(G, False, c, again=9)
    for f, b, fn, n in FAMS:
        pair(G, True, [fn, n, 16, 4, 2, 0], again=6)
        pair(G, True, [fn, n, 16, 5, 1, 1], again=11)
    # 2. registered sets: lives sampled at tree ends, powers of two and random places
    for nm, mt, fn, n, h, d in names():
        th = h // d
        if th == 10 and (n == 24 and fn == 0 or THOROUGH) and d <= 2:
            at = sorted({0, 1, 2, 511, 512, 1022, 1023} | {R.randrange(1024) for _ in range(4)}
                        | ({1024, 1025, R.randrange(1026, 1500)} if mt else set()))
            pair(H, False, nm, count=at[-1] + 1, at=at, own=False, lens=[20])
        if th == 5:
            cheap = n == 24 and fn == 0
            at = sorted({0, 1, 15, 16, 30, 31, 32, 33, 63, 64} | {R.randrange(1100) for _ in range(12 if cheap or THOROUGH else 2)}
                        | ({1023, 1024, 1025, 1056} if cheap or THOROUGH else {1024}))
            pair(H, False, nm, count=at[-1] + 1, at=at, own=cheap or THOROUGH, lens=[0, 60])
        if th == 10 and h == 10 and not (n == 24 and fn == 0):
            pair(H, False, nm, count=1, own=fn == 0, at=[0])
    # 3. far-away indices: lower layers of a key moved ahead
    def far(L, params, h, d, mt, up, cnt, at):
        th = h // d
        ib = fieldbytes(mt, h)
        top = h - th * (up + 1)
        for K in {(1 << top) - 2 if top > 1 else 1, R.randrange(1 << top), 1 << max(0, top - 1), 1 << (max(0, 32 - th * (up + 1)))}:
            K %= 1 << top
            pair(L, False, params, jump=field(K << (th * (up + 1)), ib), count=cnt, at=at, own=False, lens=[12])
    for c, up in (([0, 24, 4, 64, 16, 0], 1), ([0, 24, 4, 63, 21, 0], 2), ([0, 24, 4, 40, 10, 0], 1), ([0, 24, 4, 33, 11, 0], 1),
                  ([0, 24, 4, 64, 32, 0], 4), ([0, 24, 4, 34, 17, 0], 3), ([0, 24, 4, 48, 16, 1], 2)):
        th = c[3] // c[4]
        span = 1 << (th * up)
        at = sorted({x for l in range(1, up + 1) for s in (1 << (th * l),) for x in (s - 1, s, s + 1, s + (1 << (th * (l - 1))), 2 * s - 1, 2 * s)}
                    | {R.randrange(2 * span) for _ in range(12)})
        far(G, c, c[3], c[4], c[4] > 1, up, 2 * span + 1, at)
    for nm, mt, fn, n, h, d in names():
        if mt and h // d == 5 and (n == 24 and fn == 0 or THOROUGH):
            far(H, nm, h, d, 1, 1, 66, [31, 32, 33, 48, 63, 64, 65])
    # 4. the tallest trees, with cheap leaves
    tf, tr = thin(True), thin(False)

    def tall(h, d, k, points, jump=None, own=False):
        """Pairs at these places (how many signatures after the start)."""
        plan, pos = [], 0
        for i, x in enumerate(points):
            plan += [[i, x - pos]] if x > pos else []
            pos = x + 1
        j = dict(kind="pair", lib2=tr, id="tall %d/%d,%d %s" % (h, d, k, jump), params=[0, 24, 4, h, d, k, 1], seed=R.getrandbits(40),
                 count=len(points), own=own, lens=[12], plan=plan)
        if jump is not None:
            j["jump"] = field(jump, fieldbytes(d > 1, h))
        H.insert(0, (tf, [j]))

    if tf and tr:
        M = 1 << 20
        spots = lambda lo, hi, n: sorted({R.randrange(lo, hi) for _ in range(n)})
        for k in (0, 2, 4) if THOROUGH else (0,):
            tall(20, 1, k, [0, (1 << 17) - 1, 1 << 17] + spots(M // 4, M // 2, 3) + spots(M // 2, M - 9, 3) + [M - 2], own=k == 0)
        tall(40, 2, 0, [(1 << 19) + 5, M - 1, M] + spots(M + (1 << 17), M + (1 << 18), 1), own=THOROUGH)
        tall(60, 3, 0, [M, M + 12345], jump=(R.randrange(1 << 19) << 40) + (1 << 39))
        if THOROUGH:
            tall(40, 2, 2, [M - 1, M + M // 2, 2 * M])
            tall(60, 3, 2, [M, M + M // 2, 2 * M + 7], jump=(R.randrange(1 << 20) << 40))
        for h, d, k in ((20, 2, 0), (30, 3, 2), (40, 4, 0), (60, 6, 0)):
            tall(h, d, k, spots(1 << 10, 1 << 18, 30))
    rep.cov["tall_trees"] = bool(tf and tr)
    check_traces(rep, "TracePair", H + G, timeout=10000 if THOROUGH else 700, name="pairs", tlc_kw={"mem": "10g"})
    if not rep.violations:
        r = base.tlc("Bds", consts={"Configs": "{20200,30200,40200,20300,30300,20400,30100,50100,50101,60102,20500,40201}"
                                    if not THOROUGH else "{20200,30200,40200,50200,20300,30300,40300,20400,30400,30100,50100,50101,60102,80100,20500,20600,40201}",
                                    "Limit": 1100000, "OldStarvation": "FALSE"}, timeout=3000)
        model_ok(rep, "Bds", r, "the state-keeping signer's paths and roots are those of the recomputed trees, at every index")
    rep.cov["exhaustive"] = False
    rep.cov["rule"] = "pairs of signatures compared byte for byte; whole lives of small keys, sampled indices of registered sets"
    rep.assumptions += ["20-high trees run with a one-time signature of one hash call in the place of wots.c (harness/thinwots.c)"]
    rep.assumptions += ["mostly with a stand-in for the primitive hash functions: which nodes are hashed does not depend on it; "
                        "with the real ones on small keys"]
