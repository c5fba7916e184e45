"""C16: a key pair is a function of its seed."""
from .. import base
from ..base import THOROUGH
from ..common import lib, check_traces, flatten, model_ok, model_rejects, rng, want
from ..params import names, FAMS
from .c01 import legal

LEVEL = "model_checking"


def run(rep):
    R = rng("c16")
    con = dict(Pars="{1, 2}", Seeds="{1, 2, 3}", Draws="3" if THOROUGH else "2", Hidden="FALSE")
    cfg = "SPECIFICATION Spec\nINVARIANTS Function OnlyGenerating\nPROPERTY Untouched\nCHECK_DEADLOCK FALSE\n"
    model_ok(rep, "SeedKey", base.tlc("SeedKey", cfg=cfg, consts=con), "every history of deriving and generating")
    model_rejects(rep, "SeedKey", base.tlc("SeedKey", cfg=cfg, consts=dict(con, Hidden="TRUE")),
                  "keys that depend on earlier use of the device", "Function")
    G = []

    def add(sha, params, **kw):
        a, b = lib(False, sha), lib(True, sha)
        G.append((a, [dict(kind="seedkey", lib2=b, id="%s %s %d" % (sha, params, len(G)), params=params, seed=R.getrandbits(40), **kw)]))

    for f, b, fn, n in FAMS:
        # together with sets that differ in one thing
        add("real", [fn, n, 16, 4, 2, 0], seeds=6, signs=6,
            others=[[fn, n, 16, 6, 3, 0], [fn, n, 4, 4, 2, 0], [fn, n, 16, 2, 1, 0]] +
                   [[g, m, 16, 4, 2, 0] for _, _, g, m in FAMS if m == n and g != fn])
        add("real", [fn, n, 4, 3, 1, 1], seeds=4, signs=7)
        add("stub", [fn, n, 256, 6, 3, 0], seeds=5, signs=5, others=[[fn, n, 256, 6, 2, 0], [fn, n, 16, 6, 3, 0]])
    for th in range(2, 7):
        for d in range(1, 5):
            for k in range(th + 1):
                if legal(th, d, k) and (th * d <= 12 or THOROUGH):
                    add("stub", [0, 24, 4, th * d, d, k], seeds=7, signs=12)
    for h, d in ((64, 32), (64, 16), (63, 21), (33, 11), (56, 28), (40, 20)):
        add("stub", [0, 24, 4, h, d, 0], seeds=6, signs=4)
        if h % 2:
            add("stub", [0, 64, 16, h, d, 0], seeds=4, signs=1, rounds=1)
    for nm, mt, fn, n, h, d in names():
        th = h // d
        if th == 5:
            add("stub", nm, seeds=5 if n == 24 else 3, signs=2, rounds=1)
        elif th == 10 and (THOROUGH or (not mt and n < 64)):
            add("stub", nm, seeds=1, signs=0, rounds=1)
    check_traces(rep, "TraceSeedKey", G, timeout=5000 if THOROUGH else 600, name="seeds", tlc_kw={"mem": "8g"})
    # what the function is: the definition, from the seeds on
    if not rep.violations:
        H = []
        for f, b, fn, n in FAMS:
            for w, h, d in ((16, 4, 2), (4, 6, 3), (256, 2, 1), (16, 3, 1)):
                if w == 256 and n != 24 and not THOROUGH:
                    continue
                H.append((lib(False, "real"), [dict(kind="record", id="def %s %s" % (f + b, (w, h, d)), params=[fn, n, w, h, d, 0],
                                                    want=want(fn, n, w, h, d), seed=R.getrandbits(40), lens=[9], starts=[None],
                                                    core=True, rec="prefix", keygen=True, derive=True)]))
        check_traces(rep, "Oracle", H, timeout=3000 if THOROUGH else 600, name="values", transform=flatten, tlc_kw={"mem": "8g"})
    rep.cov["rule"] = "keys derived and generated from the same bytes in any order, buffers with any earlier contents, several processes"
    rep.cov["exhaustive"] = False
    rep.assumptions += ["mostly with a stand-in for the primitive hash functions; with the real ones on small trees"]
