"""C15: the state-keeping signer does a bounded amount of work per signature."""
from .. import base, jobs
from ..base import THOROUGH
from ..common import lib, thin, check_traces, model_ok, model_rejects, rng
from ..params import names, FAMS
from ._index import field, fieldbytes
from .c01 import legal, inone, TALL, TALL_THOROUGH

LEVEL = "model_checking"


def run(rep):
    R = rng("c15")
    fs = lib(True)
    G, H = [], []
    lives = [[0, 24, 4, d * th, d, k] for d, ths in ((1, (2, 3, 5, 6, 8)), (2, (2, 3, 4, 5)), (3, (2, 3)), (4, (2, 3)), (5, (2,)), (6, (2,)))
             for th in ths for k in range(th + 1) if legal(th, d, k)]
    lives += [[0, 32, 16, 8, 2, 0], [0, 64, 4, 6, 3, 0], [0, 24, 256, 6, 2, 0], [2, 24, 16, 6, 3, 0], [1, 32, 4, 6, 2, 0]]
    for c in lives:
        G.append((fs, [dict(id="fast%s" % c, params=c, seed=R.getrandbits(40), count="all", work=True, lens=[16, 0], verify=False)]))
    for c, cnt in (([0, 24, 4, 20, 4, 0], 34000 if not THOROUGH else 200000), ([0, 24, 4, 16, 8, 0], 20000 if not THOROUGH else "all"),
                   ([0, 24, 4, 13, 1, 0], 8195), ([0, 24, 4, 24, 2, 0], 4200), ([0, 24, 4, 30, 6, 1], 2100),
                   ([0, 24, 4, 24, 2, 4], 4200)):
        H.append((fs, [dict(id="fast%s" % c, params=c, seed=R.getrandbits(40), count=cnt, work=True, lens=[16], verify=False)]))
    for nm, cnt in (("XMSS-SHA2_10_256", "all"), ("XMSS-SHAKE256_10_192", "all"), ("XMSSMT-SHA2_20/2_192", 2100),
                    ("XMSSMT-SHA2_60/12_256", 1100), ("XMSSMT-SHAKE_40/8_256", 1100), ("XMSSMT-SHA2_20/4_512", 70),
                    ("XMSSMT-SHA2_40/4_192", 1100)):
        H.append((fs, [dict(id="fast" + nm, params=nm, seed=R.getrandbits(40), count=cnt, work=True, lens=[16], verify=False)]))
    # the sets with large trees: with a blank signer state, every treehash instance has work to do
    for nm, mt, fn, n, h, d in names():
        ib = fieldbytes(mt, h)
        G.append((fs, [dict(id="fast blank " + nm, params=nm, seed=R.getrandbits(40), count=12, work=True, lens=[16],
                            verify=False, fabricate=True, start=field(R.choice([0, (1 << (h // d)) - 6]), ib))]))
    # a million signatures and more in the tallest trees, with cheap leaves
    tf = thin(True)
    if tf:
        for n, h, d, k, upto in TALL + (TALL_THOROUGH if THOROUGH else []):
            plan, obs = inone(R, h, h // d, upto, 0)
            H.insert(0, (tf, [dict(id="fast tall %d/%d,%d" % (h, d, k), params=[0, n, 4, h, d, k, 1], seed=R.getrandbits(40),
                                   count=obs, lens=[16], plan=plan, work=True, verify=False)]))
    rep.cov["tall_trees"] = bool(tf)
    tr = check_traces(rep, "TraceKey", H + G, timeout=7000 if THOROUGH else 600, name="work", tlc_kw={"mem": "12g"})
    rep.cov["most_units_in_one_signature"] = max((e.get("units", 0) for t in tr for e in t["ev"] if e["op"] == "sign"), default=0)
    if not rep.violations:
        confs = "{20100,30100,50100,60102,20200,30200,40200,50200,40202,20300,30300,20400,20500,30400}"
        r = base.tlc("Bds", consts={"Configs": confs, "Limit": 1100000, "OldStarvation": "FALSE"})
        model_ok(rep, "Bds", r, "WorkBounded and MemoryFits over whole lifetimes")
        # does the model describe this code?  (information, not a verdict: see TraceBds)
        small = [t for t in tr if len(t["ev"]) < 1100 and "blank" not in t["id"] and "tall" not in t["id"]]
        r = base.tlc("TraceBds", env={"TRACES": jobs.write_traces(small)})
        rep.model("TraceBds", r, "work per signature, exactly as in the model: %s" % ("agrees" if r.ok else "DIFFERS"))
        rep.cov["model_work_agrees_exactly"] = r.ok
    rep.cov["rule"] = "hash calls and chain-start derivations of every single call, against the bound for the model's tree switches"
    rep.cov["exhaustive"] = False
    rep.assumptions += ["20-high trees run with a one-time signature of one hash call in the place of wots.c (harness/thinwots.c)"]
    rep.assumptions += ["work is counted as calls of the primitive hash functions; chain starts are recognised by their domain separator"]
