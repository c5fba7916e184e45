"""C14: keys are self-contained; saving, restoring and interleaving change nothing."""
import json
from ..base import THOROUGH, CheckError
from .. import base
from ..common import lib, check_traces, model_ok, model_rejects, rng

LEVEL = "model_checking"
BIG = dict(KeyIds="{1,2,3}", Buffers="{1,2,3}", Slots="{1,2}", Caps="{64}", Hidden="FALSE", Emit="TRUE")


def behaviours(rep, R, num, ops, **kw):
    c = dict(BIG, MaxOps=ops)
    c.update(kw)
    cfg = open(base.SPEC + "/Sessions.cfg").read().replace("VIEW view\n", "")
    cfg = "".join(l + "\n" for l in cfg.splitlines() if "PROPERT" not in l)
    r = base.tlc("Sessions", cfg=cfg, consts=c, simulate="num=%d" % num, depth=ops + 2, workers=1, seed=R.randrange(1 << 30), timeout=600)
    rep.model("Sessions:simulate", r, "%d behaviours of %d operations" % (num, ops))
    out = list(dict.fromkeys(r.printed))
    out = [json.loads(json.loads(l)) for l in out][:num]
    if len(out) < num * 0.9:
        raise CheckError("only %d behaviours generated" % len(out))
    return out


def run(rep):
    R = rng("c14")
    small = dict(KeyIds="{1,2}", Buffers="{1,2}", Slots="{1}", Caps="{2,3}" if THOROUGH else "{2}", MaxOps=1000, Emit="FALSE")
    r = base.tlc("Sessions", cfg="Sessions.cfg", consts=dict(small, Hidden="FALSE"), timeout=1200)
    model_ok(rep, "Sessions", r, "two keys, two buffers, one saved copy")
    model_rejects(rep, "Sessions", base.tlc("Sessions", cfg="Sessions.cfg", consts=dict(small, Hidden="TRUE"), timeout=600),
                  "a library that remembers something itself")
    fs, rs, fr, rr = lib(True), lib(False), lib(True, "real"), lib(False, "real")
    A = [[0, 24, 4, 6, 3, 0], [2, 64, 4, 6, 2, 1], [0, 32, 16, 6, 1, 2]]
    B = [[0, 24, 4, 6, 2, 1], [0, 24, 4, 6, 2, 1], [0, 24, 4, 6, 3, 0]]           # alike
    C_ = ["XMSSMT-SHA2_20/4_192", "XMSSMT-SHAKE256_20/4_192", "XMSSMT-SHAKE_20/4_256"]
    D = [[1, 32, 4, 4, 2, 2], [0, 64, 4, 5, 1, 1], [2, 24, 16, 6, 3, 0]]
    G = []

    def sess(l, tag, sets, ops, **kw):
        j = dict(kind="sessions", id="%s %d" % (tag, len(G)), keys=[[s, R.getrandbits(40)] for s in sets], limit=70, nb=3, ns=2, ops=ops, seed=R.getrandbits(40))
        j.update(kw)
        G.append((l, [j]))
    many = behaviours(rep, R, 400 if THOROUGH else 60, 80)
    short = behaviours(rep, R, 400 if THOROUGH else 60, 25)
    for i, b in enumerate(many):
        sess(fs, "session", (A, B, D)[i % 3], b)
        if i % 3 == 0:
            sess(fs, "session", C_, b)
        if i % 4 == 0:
            sess(rs, "ref session", (A, B, D)[i % 3], b)
    for i, b in enumerate(short):
        sess(fr if i % 2 else rr, "real", (A, B, D)[i % 3], b, limit=26)
    # a call within another, at every part of it
    for i, (l, sets) in enumerate(((fs, A), (fs, B), (rs, B), (fs, C_), (rs, D), (fs, D))):
        for i1, i2 in ((0, 0), (3, 6), (7, 7), (15, 2)):
            if THOROUGH or (i + i1) % 2 == 0:
                for a in ("sign", "gen", "open"):
                    sess(l, "nested", sets[:2] if i % 2 else sets[1:], [], nest=dict(i1=i1, i2=i2, outer=[a], inner=["sign", "gen", "open"],
                         points=4000 if THOROUGH else 150), limit=20, nb=2)
    # threads
    for l, sets, rounds in ((fs, A + B + D, 16), (fs, B * 3, 16), (rs, A + B, 12), (fr, B + A[:1] + D, 8), (rr, B, 6), (fs, C_ * 2, 20), (fr, D * 2, 8)):
        for v in range(3 if not THOROUGH else 12):
            sess(l, "threads", sets, [], threads=rounds, nb=len(sets), limit=2 * rounds + 1)
    for l, sets in ((fs, A + B), (rs, B + D), (fr, D + B)):
        sess(l, "threads generate", sets, [], genthreads=True, threads=4, nb=len(sets), limit=9)
    check_traces(rep, "TraceSessions", G, timeout=6000 if THOROUGH else 600, name="sessions", tlc_kw={"mem": "8g"})
    rep.cov["rule"] = "behaviours of Sessions generated by TLC and replayed; calls within calls at every hash; threads"
    rep.cov["exhaustive"] = False
