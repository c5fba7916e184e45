"""C01: every signature of a key's whole lifetime verifies."""
from .. import base
from ..base import THOROUGH
from ..common import lib, thin, check_traces, model_ok, model_rejects, rng
from ._index import field, fieldbytes

LEVEL = "model_checking"

def legal(th, d, k):
    """BDS parameters the traversal is defined for; next trees of middle layers need a budget."""
    return k == 0 or ((th - k) % 2 == 0 and (k < th or d < 3))


# func: 0 SHA2, 1 SHAKE128, 2 SHAKE256.  [func, n, w, h, d, k]
SMALL = (
    # single trees, all BDS parameters
    [[0, 24, 4, h, 1, k] for h in range(2, 9) for k in range(0, h + 1) if legal(h, 1, k)]
    # multi-tree
    + [[0, 24, 4, d * th, d, k] for d, ths in ((2, (2, 3, 4, 5)), (3, (2, 3)), (4, (2,)), (5, (2,)))
       for th in ths for k in range(0, th + 1) if legal(th, d, k)]
    # Winternitz parameters, output lengths, hash functions
    + [[0, 32, 16, 4, 2, 0], [0, 64, 4, 4, 2, 2], [0, 64, 256, 4, 2, 0], [0, 24, 256, 6, 3, 0],
       [0, 32, 256, 4, 1, 2], [2, 24, 16, 6, 2, 1], [1, 32, 4, 6, 3, 0], [2, 64, 16, 4, 2, 0],
       [2, 32, 4, 8, 2, 2]]
)
SMALL_THOROUGH = [[0, 24, 4, d * th, d, k] for d, ths in ((2, (6, 7)), (3, (4, 5)), (4, (3, 4)), (6, (2,)), (7, (2,)), (8, (2,)))
                  for th in ths for k in range(0, th + 1) if legal(th, d, k)]
LENS = [32, 0, 1, 55, 56, 63, 64, 65, 111, 119, 127, 128, 129, 136, 168, 200, 300]

# names whose key generation is affordable with the stand-in hash
XMSS10 = ["XMSS-SHA2_10_256", "XMSS-SHA2_10_512", "XMSS-SHAKE_10_256", "XMSS-SHAKE_10_512",
          "XMSS-SHA2_10_192", "XMSS-SHAKE256_10_256", "XMSS-SHAKE256_10_192"]
FAMS = ["SHA2%s_256", "SHA2%s_512", "SHAKE%s_256", "SHAKE%s_512", "SHA2%s_192", "SHAKE256%s_256", "SHAKE256%s_192"]


def bds_models(rep):
    quick = "{20100,30100,30101,40100,40102,50100,50101,60100,60102,20200,20202,30200,30201,40200,40202,20300,30300,20400,20500}"
    full = "{20100,30100,30101,40100,40102,50100,50101,50103,60100,60102,60104,70100,80100,80102," \
           "20200,20202,30200,30201,40200,40202,50200,50201,50203,20300,30300,30301,40300," \
           "20400,20402,30400,20500,20600,20700}"
    r = base.tlc("Bds", consts={"Configs": full if THOROUGH else quick, "Limit": 1100000,
                                "OldStarvation": "FALSE"}, timeout=3000, mem="12g")
    model_ok(rep, "Bds", r, "whole lifetimes, every (height, layers, BDS parameter) listed")
    r = base.tlc("Bds", consts={"Configs": "{20400}", "Limit": 100, "OldStarvation": "TRUE"})
    model_rejects(rep, "Bds", r, "updates spent on complete trees", "SignatureRight")


# (n, height, layers, BDS parameter, signatures)
TALL = [(24, 20, 1, 0, 1 << 20), (24, 40, 2, 0, (1 << 20) + (1 << 17) + 900), (32, 20, 1, 4, 1 << 18), (24, 20, 4, 0, 1 << 20), (24, 40, 8, 0, 1 << 18),
        (24, 20, 2, 2, 1 << 18), (24, 60, 12, 1, 1 << 17)]
TALL_THOROUGH = [(24, 20, 1, k, 1 << 20) for k in (2, 4, 6, 10)] + [(24, 60, 3, 0, (1 << 21) + 900), (24, 40, 2, 2, (1 << 22) + 9),
                 (24, 20, 2, 0, 1 << 20), (24, 20, 5, 0, 1 << 20), (24, 20, 10, 0, 1 << 20), (24, 40, 4, 0, 1 << 21), (24, 60, 6, 2, 1 << 21),
                 (24, 21, 3, 1, 1 << 21), (24, 22, 1, 0, 1 << 22), (24, 20, 4, 3, 1 << 20)]


def inone(R, h, th, upto, every):
    """A life in stretches without an event each, up to places worth a look: (plan, calls with events).
    Before the i-th call with an event: so many calls in one go, every so-many-th verified."""
    at = {1 << b for b in range(3, h)} | {(1 << th) * R.randrange(1, max(2, upto >> th)) for _ in range(6)}
    at = sorted({x - 2 for x in at if x < upto - 10} | {R.randrange(8, upto - 10) for _ in range(12)} | {(1 << h) - 6 if upto == 1 << h else upto - 6})
    plan, i, pos = [], 0, 0
    for x in at:
        if x <= pos:
            continue
        plan.append((i, x - pos, every))
        i, pos = i + 4, x + 4
    return plan, i + (5 if upto == 1 << h else 2)


def run(rep):
    fs, rs = lib(True), lib(False)
    fr, rr = lib(True, "real"), lib(False, "real")
    R = rng("c01")
    G = []
    cfgs = SMALL + (SMALL_THOROUGH if THOROUGH else [])
    for i, c in enumerate(cfgs):
        G.append((fs, [dict(id="fast%s" % c, params=c, seed=R.getrandbits(40), count="all", lens=LENS)]))
        if c[5] == 0 and c[3] // c[4] <= 4 and c[3] <= 8:
            G.append((rs, [dict(id="ref%s" % c, params=c, seed=R.getrandbits(40), count="all", lens=LENS)]))
    # long heavy ones first
    H = []
    # real parameter sets: whole single trees, and multi-tree keys past two or more switches
    for nm in XMSS10:
        H.append((fs, [dict(id="fast" + nm, params=nm, seed=R.getrandbits(40), count="all", lens=[0, -200])]))
    H.insert(0, (fs, [dict(id="fast[0,24,4,20,4]", params=[0, 24, 4, 20, 4, 0], seed=R.getrandbits(40),
                           count=70000 if THOROUGH else 33800, lens=[16])]))
    H.append((fs, [dict(id="fastXMSS-SHA2_16_192", params="XMSS-SHA2_16_192", seed=R.getrandbits(40), count=260, lens=[16])]))
    # long lives, most of them in one go; with cheap leaves also those of the tallest trees there are
    tf, tr = thin(True), thin(False)
    for d, th, upto in ((1, 14, 1 << 14), (3, 4, 1 << 12), (2, 8, 1 << 16), (4, 4, 1 << 16), (3, 5, 1 << 15), (8, 2, 1 << 16)):
        plan, obs = inone(R, d * th, th, upto, 1)
        lb, cheap = (tf, [1]) if tf and upto > 1 << 14 else (fs, [])
        H.insert(0, (lb, [dict(id="fast long %d/%d" % (d * th, d), params=[0, 24, 4, d * th, d, 0] + cheap, seed=R.getrandbits(40),
                               count=obs, lens=[16], plan=plan)]))
    if tf:
        for n, h, d, k, upto in TALL + (TALL_THOROUGH if THOROUGH else []):
            plan, obs = inone(R, h, h // d, upto, 1)
            H.insert(0, (tf, [dict(id="fast tall %d/%d,%d" % (h, d, k), params=[0, n, 4, h, d, k, 1], seed=R.getrandbits(40),
                                   count=obs, lens=[16], plan=plan)]))
    else:
        plan, obs = inone(R, 17, 17, (1 << 16) + 700, 9)
        H.insert(0, (fs, [dict(id="fast long 17/1", params=[0, 24, 4, 17, 1, 0], seed=R.getrandbits(40), count=obs, lens=[16], plan=plan)]))
    if tr:
        for h, d in ((20, 1), (40, 2), (60, 3)):
            th, ib = h // d, fieldbytes(d > 1, h)
            at = [(1 << th) - 1, 1 << (th - 1), R.randrange(1 << 17, 1 << 18), R.randrange(1 << h)] if d == 1 else \
                 [(1 << h) - (3 if h == 8 * ib else 2), (R.randrange(1 << (h - th)) << th) + R.randrange(1 << 19, 1 << 20)][:2 if THOROUGH else 1]
            for x in at:
                H.insert(0, (tr, [dict(id="ref tall %d/%d@%x" % (h, d, x), params=[0, 24, 4, h, d, 0, 1], seed=R.getrandbits(40),
                                       count=1, jumps=[field(x, ib)], lens=[16])]))
    rep.cov["tall_trees"] = bool(tf and tr)
    H.insert(0, (fs, [dict(id="fast[0,24,4,60,3]k", params=[0, 24, 4, 24, 2, 2], seed=R.getrandbits(40),
                           count=8500 if THOROUGH else 4200, lens=[16])]))
    for shape, cnt in (("_20/2", 2100), ("_20/4", 1100), ("_40/8", 1100), ("_60/12", 1100), ("_40/4", 1030), ("_60/6", 1030)):
        for f in (FAMS if THOROUGH else R.sample(FAMS, 2) if cnt == 1100 else ["SHA2%s_192"]):
            nm = "XMSSMT-" + f % shape
            H.append((fs, [dict(id="fast" + nm, params=nm, seed=R.getrandbits(40), count=cnt, lens=[0, -100])]))
    for f in FAMS:
        nm = "XMSSMT-" + f % "_20/4"
        H.append((rs, [dict(id="ref" + nm, params=nm, seed=R.getrandbits(40), count=35, lens=LENS)]))
        nm = "XMSSMT-" + f % "_40/8"
        G.append((rs, [dict(id="ref" + nm, params=nm, seed=R.getrandbits(40), count=4,
                            start=[0, 0, R.randrange(256), 255, 254], lens=LENS)]))
    for nm in ("XMSS-SHA2_10_256", "XMSS-SHAKE256_10_192", "XMSSMT-SHA2_60/6_256"):
        p = dict(id="ref" + nm, params=nm, seed=R.getrandbits(40), count=3, lens=[0, 33])
        G.append((rs, [p]))
    # the same with the real hash functions
    for f in FAMS:
        for c in ([0, 24, 16, 6, 2, 0], [0, 24, 4, 6, 3, 0]):
            fn, n = {"SHA2%s_256": (0, 32), "SHA2%s_512": (0, 64), "SHAKE%s_256": (1, 32), "SHAKE%s_512": (2, 64),
                     "SHA2%s_192": (0, 24), "SHAKE256%s_256": (2, 32), "SHAKE256%s_192": (2, 24)}[f]
            cc = [fn, n] + c[2:]
            G.append((fr, [dict(id="realfast%s" % cc, params=cc, seed=R.getrandbits(40), count="all", lens=LENS)]))
            G.append((rr, [dict(id="realref%s" % cc, params=cc, seed=R.getrandbits(40), count=20, lens=LENS)]))
    # message lengths: every length around the block sizes, and long ones
    allens = list(range(0, 420))
    for l, nm in ((fs, "fast"), (rs, "ref")):
        for c in ([0, 24, 4, 9, 3, 0], [2, 64, 16, 10, 5, 0]):
            G.append((l, [dict(id="%s lens %s" % (nm, c), params=c, seed=R.getrandbits(40), count=420, lens=allens)]))
        G.append((l, [dict(id=nm + " long", params=[0, 32, 16, 6, 2, 0], seed=R.getrandbits(40), count=8,
                           lens=[4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 1 << 24, 70000])]))
    if THOROUGH:
        H.insert(0, (fs, [dict(id="fast[0,24,4,18,2]", params=[0, 24, 4, 18, 2, 0], seed=R.getrandbits(40),
                               count="all", lens=[16])]))
    check_traces(rep, "TraceKey", H + G, timeout=14000 if THOROUGH else 600, name="lives",
                 tlc_kw={"mem": "12g"})
    if not rep.violations:
        bds_models(rep)
    rep.cov["exhaustive"] = False
    rep.cov["rule"] = ("whole lifetimes of every small (n, w, height, layers, BDS) configuration listed and of the "
                       "10-high single-tree sets; prefixes past tree switches of the multi-tree sets")
    rep.assumptions += ["20-high trees run with a one-time signature of one hash call in the place of wots.c (harness/thinwots.c)"]
    rep.assumptions += ["lifetimes run with a stand-in for the primitive hash functions "
                        "(tree traversal does not depend on which hash it is); real ones on smaller trees",
                        "BDS parameter k: 0, or height - k even"]
