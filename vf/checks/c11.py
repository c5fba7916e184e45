"""C11: the command-line tools agree with each other on every file."""
import json
from ..base import THOROUGH, CheckError
from .. import base
from ..common import lib, check_traces, model_ok, rng

LEVEL = "model_checking"


def behaviours(rep, R, num, ops):
    c = dict(KeyFiles="{1,2,3}", SigFiles="{1,2,3}", Sets="{1,2,3}", Msgs="{1,2,3,4}", Caps="{1000}", MaxKeys=4, MaxOps=ops, Emit="TRUE")
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT NoStrangers\n"
    r = base.tlc("Tools", cfg=cfg, consts=c, simulate="num=%d" % num, depth=ops + 2, workers=1, seed=R.randrange(1 << 30), timeout=600)
    rep.model("Tools:simulate", r, "%d behaviours of %d operations" % (num, ops))
    out = [json.loads(json.loads(l)) for l in dict.fromkeys(r.printed)][:num]
    if len(out) < num * 0.9:
        raise CheckError("only %d behaviours generated" % len(out))
    return out


def run(rep):
    R = rng("c11")
    r = base.tlc("Tools", consts=dict(KeyFiles="{1,2}", SigFiles="{1,2}" if THOROUGH else "{1}", Sets="{1,2}", Msgs="{1}", Caps="{1,2}", MaxKeys=4 if THOROUGH else 2, MaxOps=1000, Emit="FALSE"),
                 timeout=1500, mem="8g")
    model_ok(rep, "Tools", r, "two key files, keys of one and two signatures")
    G = []
    built = {}

    def tools(mt, fast, sha, second):
        jobs = [("keypair", mt, fast, sha), ("sign", mt, fast, sha), ("open", mt, fast, sha)]
        t = {}
        for a in jobs:
            built[a] = t[a[0]] = built.get(a) or base.build_tool(*a)
        if second:
            a = ("open", mt, not fast, sha)
            built[a] = t["open2"] = built.get(a) or base.build_tool(*a)
        return t

    def job(mt, fast, sha, sets, tag, second=True, **kw):
        j = dict(kind="tools", id="%s %s %s %d" % ("fast" if fast else "ref", tag, sets[0], len(G)), sets=[[s, mt] for s in sets],
                 tools=tools(mt, fast, sha, second), seed=R.getrandbits(40))
        j.update(kw)
        G.append((lib(fast), [j]))
    ST = ["XMSS-SHA2_10_192", "XMSS-SHA2_10_256", "XMSS-SHAKE256_10_192", "XMSS-SHAKE256_10_256", "XMSS-SHAKE_10_256", "XMSS-SHAKE_10_512", "XMSS-SHA2_10_512"]
    MT = ["XMSSMT-SHA2_20/4_192", "XMSSMT-SHAKE256_20/4_256", "XMSSMT-SHAKE_20/4_512", "XMSSMT-SHA2_40/8_192", "XMSSMT-SHAKE256_60/12_192", "XMSSMT-SHA2_20/4_512",
          "XMSSMT-SHA2_60/12_256"]
    n = 360 if THOROUGH else 72
    for i, ops in enumerate(behaviours(rep, R, n, 40)):
        mt = i % 3 != 0
        fast = i % 4 != 1
        if mt:
            sets = R.sample(MT, 3) if i % 6 == 1 else MT[:3] if fast else R.sample(MT[:2], 2) + [MT[0]]
        else:
            sets = R.sample(ST[:4], 3) if fast else [ST[0]] * 3
        if not mt and not fast:
            ops = ops[:20]
        job(int(mt), fast, "real" if i % 8 == 4 and mt else "stub", sets, "session", ops=ops)
    # the whole life of a key
    job(0, True, "stub", ["XMSS-SHA2_10_192"], "life", life=dict(count=1028, stride=64), mlens=[0, 33, 4096])
    for v in (0, 1):
        job(1, bool(v), "stub", ["XMSSMT-SHA2_20/4_192"], "start", life=dict(count=40), mlens=[1, 4095, 100000])
    for at in (30, (1 << 10) - 2, (1 << 15) - 2, (1 << 20) - 4):
        job(1, False, "stub", ["XMSSMT-SHA2_20/4_192"], "from %d" % at, life=dict(count=7, index=list(at.to_bytes(3, "big"))))
    # files of every length
    for mt, fast, st in ((1, True, MT[0]), (1, False, MT[1]), (0, True, ST[0]), (1, True, MT[4]), (1, True, MT[2])):
        job(mt, fast, "stub", [st], "cuts", cuts=400 if THOROUGH else 25)
    check_traces(rep, "TraceTools", G, timeout=6000 if THOROUGH else 700, name="tools", tlc_kw={"mem": "8g"})
    rep.cov["rule"] = "behaviours of Tools generated by TLC and replayed on the real tools; whole lives of keys; files of every critical length"
    rep.cov["exhaustive"] = False
