"""C06: keys and signatures have the values RFC 8391 / SP 800-208 prescribe."""
from ..base import THOROUGH
from .. import base
from ..common import lib, check_traces, flatten, want, sparse_keys, rng
from ..params import names, FAMS
from ._index import field, fieldbytes

LEVEL = "model_checking"


def run(rep):
    R = rng("c06")
    fr, rr = lib(True, "real"), lib(False, "real")
    G = []

    def rec(l, tag, params, w, **kw):
        j = dict(kind="record", id="%s %s %s" % (tag, params, kw.get("rec")), params=params, want=w,
                 seed=R.getrandbits(40), lens=[32], starts=[None], core=isinstance(params, list))
        j.update(kw)
        j["id"] += " %d" % len(G)
        G.append((l, [j]))

    # 1. small trees, byte for byte, both implementations
    for f, b, fn, n in FAMS:
        for w, h, d in ((16, 4, 2), (4, 6, 3), (256, 2, 1)) if n == 24 or THOROUGH else ((16, 4, 2),):
            if w == 256 and not THOROUGH and fn:
                continue
            pw = want(fn, n, w, h, d)
            ib = fieldbytes(d > 1, h)
            last = (1 << h) - 1
            rec(fr, "fast", [fn, n, w, h, d, 0], pw, rec="sign", starts=[None] * 2, lens=[R.randrange(200), 0], keygen=True)
            rec(rr, "ref", [fn, n, w, h, d, 0], pw, rec="sign", keygen=True, lens=[R.randrange(200)],
                starts=[field(R.randrange(last), ib)])
    # 2. every registered set with affordable trees: public root, components
    for nm, mt, fn, n, h, d in names():
        th, ib = h // d, fieldbytes(mt, h)
        pw = want(fn, n, 16, h, d, mt)
        if th <= 5:
            lim = (1 << h) - 2
            picks = [R.randrange(lim) for _ in range(3 if THOROUGH else 1)]
            if n == 24 or THOROUGH:
                picks.append(lim)
            rec(rr, "ref", nm, pw, rec="parts", keygen=(h in (20, 60) and n < 64) or THOROUGH,
                starts=[field(v, ib) for v in picks], lens=[R.randrange(300) for _ in picks])
            rec(fr, "fast", nm, pw, rec="parts", starts=[None], lens=[R.randrange(300)])
        elif th == 10 and mt and n == 24 and fn == 0:
            rec(rr, "ref", nm, pw, rec="parts", starts=[field(R.randrange((1 << h) - 2), ib)], lens=[R.randrange(300)])
        elif th == 10 and not mt:
            rec(fr, "fast", nm, pw, rec="parts", starts=[None] * 2, lens=[R.randrange(300), 0])
        # 3. any set, any index: what does not need the trees
        for _ in range(3 if THOROUGH else 1):
            rec(fr, "fast", nm, pw, rec="prefix", fabricate=True,
                starts=[field(R.randrange((1 << h) - 2), ib), None], lens=[R.randrange(400), R.randrange(400)])
        if th <= 5:
            rec(rr, "ref", nm, pw, rec="prefix", fabricate=True,
                starts=[field(R.randrange((1 << h) - 2), ib)], lens=[R.randrange(400)])
    # 4. message lengths, through the message hash (prefix records), all hash functions
    for f, b, fn, n in FAMS:
        pw = want(fn, n, 4, 4, 2)
        lens = list(range(0, 300)) if THOROUGH else sorted(R.sample(range(0, 300), 24) + [0, 1])
        blk = {0: 64 if n != 64 else 128, 1: 168, 2: 136}[fn]
        pre = (4 if n == 24 else n) + 3 * n
        edge = sorted({x for mlt in (1, 2, 3, 4) for x in (blk * mlt - pre + e for e in (-18, -17, -16, -10, -9, -8, -1, 0, 1)) if x >= 0})
        for l, tag in ((fr, "fast"), (rr, "ref")):
            for part in (lens, edge, [4096, 65536, 100003]):
                rec(l, tag, [fn, n, 4, 4, 2, 0], pw, rec="prefix", starts=[field(i % 14, 1) for i in range(len(part))],
                    lens=part, fabricate=True)
    # 5. bits of the index, one by one
    for l, tag, nm in ((fr, "fast", "XMSSMT-SHA2_60/3_192"), (rr, "ref", "XMSSMT-SHA2_60/12_192"),
                       (fr, "fast", "XMSSMT-SHA2_40/2_192"), (fr, "fast", "XMSS-SHA2_20_192"), (fr, "fast", "XMSSMT-SHA2_20/2_192")):
        _, mt, fn, n, h, d = [x for x in names() if x[0] == nm][0]
        ib = fieldbytes(mt, h)
        bits = range(h) if THOROUGH else R.sample(range(h), 12) + [h - 1]
        rec(l, tag, nm, want(fn, n, 16, h, d, mt), rec="prefix", fabricate=True, lens=[0],
            starts=[field(1 << b, ib) for b in bits])
    if THOROUGH:
        for nm, mt, fn, n, h, d in names():
            if h == 10:
                rec(fr, "fast", nm, want(fn, n, 16, h, d, mt), rec="parts", keygen=n < 64, starts=[None], lens=[9])
    check_traces(rep, "Oracle", G, timeout=14000 if THOROUGH else 800, name="values", transform=flatten,
                 tlc_kw={"mem": "10g"})
    if rep.violations:
        return
    # 6. valid signatures for every registered set and far-away indices, made from the definition,
    #    have to be accepted by both verifiers
    items = []
    for nm, mt, fn, n, h, d in names():
        ib = fieldbytes(mt, h)
        for rep_i in range(3 if THOROUGH else 1):
            items.append(dict(id="%s.%d" % (nm, rep_i), name=nm, want=want(fn, n, 16, h, d, mt),
                              idx=field(R.randrange(1 << h), ib), m=R.randbytes(R.randrange(200))))
    for fn, n, w, h, d in ((0, 24, 4, 64, 16), (0, 32, 256, 30, 3), (2, 24, 256, 63, 7), (0, 64, 4, 56, 4), (1, 32, 4, 33, 3)):
        items.append(dict(id="custom%d" % len(items), name=[fn, n, w, h, d, 0], want=want(fn, n, w, h, d),
                          idx=field(R.randrange(1 << h), fieldbytes(True, h)), m=R.randbytes(R.randrange(200))))
    made = sparse_keys(rep, items)
    G2 = []
    for it, pk, sm in made:
        for l, tag in ((fr, "fast"), (rr, "ref")):
            G2.append((l, [dict(kind="open", id="%s %s" % (tag, it["id"]), params=it["name"],
                                items=[dict(pk=pk.hex(), sm=sm.hex())])]))
    check_traces(rep, "TraceVerify", merge(G2), timeout=600, name="accepts")
    rep.cov["rule"] = "records of keys and signatures, each recomputed by TLC from the byte-level definition"
    rep.cov["exhaustive"] = False
    rep.assumptions += ["SHA-256/512 of the JDK and the harness's own Keccak (checked against known answers) are right",
                        "paths of large trees are judged by the public root they lead to"]


def merge(groups, per=24):
    """Jobs of the same library in fewer processes."""
    by = {}
    for l, js in groups:
        by.setdefault(l, []).extend(js)
    out = []
    for l, js in by.items():
        for i in range(0, len(js), per):
            out.append((l, js[i:i + per]))
    return out
