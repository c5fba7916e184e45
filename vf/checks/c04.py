"""C04: verification rejects everything that was not signed."""
from ..base import THOROUGH
from .. import base
from ..common import lib, check_traces, model_ok, model_rejects, flatten, want, sparse_keys, rng
from ..params import names, FAMS
from ._index import field, fieldbytes
from .c06 import merge

LEVEL = "model_checking"
ALL = dict(flips="all", msg=None, pk=None, components="all", swaps=6, exchange=150, multi=300, lengths="all", random=40)
REST = dict(components=80, swaps=3, exchange=30, multi=30, lengths=30, random=5, flips=1, pk=10, msg=10)


def models(rep):
    def run(steps, wide, **kw):
        c = dict(Checksum="TRUE", BindIndex="TRUE", MaxSteps=steps, Wide=wide)
        c.update(kw)
        return base.tlc("Verifier", consts=c, timeout=14000, mem="12g", extra=["-fp", "3"])
    model_ok(rep, "Verifier", run(1, "TRUE"), "all manipulations of one step")
    if THOROUGH:
        model_ok(rep, "Verifier", run(2, "FALSE"), "two manipulations in a row")
    model_rejects(rep, "Verifier", run(1, "TRUE", Checksum="FALSE"), "no checksum", "OnlyHonest")
    model_rejects(rep, "Verifier", run(1, "TRUE", BindIndex="FALSE"), "hashing not bound to the position", "OnlyHonest")


def run(rep):
    R = rng("c04")
    fs, rs = lib(True), lib(False)
    fr, rr = lib(True, "real"), lib(False, "real")
    G, n = [], [0]

    def job(l, tag, params, **kw):
        n[0] += 1
        j = dict(kind="tamper", id="%s %s %d" % (tag, params, n[0]), params=params, seed=R.getrandbits(30), lens=[32],
                 starts=[None], tamper=ALL, rest=REST)
        j.update(kw)
        G.append((l, [j]))

    # 1. everything, on small keys
    small = [[0, 24, 256, 4, 2, 0], [0, 24, 16, 2, 1, 0], [0, 32, 16, 6, 3, 0], [2, 24, 256, 3, 1, 0],
             [0, 24, 4, 4, 2, 0], [0, 64, 16, 4, 2, 0], [1, 32, 16, 4, 1, 0], [2, 32, 16, 9, 3, 0]]
    if THOROUGH:
        small += [[f, nn, w, h, d, 0] for f, nn in ((0, 24), (0, 32), (0, 64), (1, 32), (2, 24), (2, 32), (2, 64))
                  for w in (4, 16, 256) for h, d in ((4, 1), (4, 2), (6, 3), (8, 4), (16, 8))]
    for c in small:
        h = c[3]
        last = (1 << h) - 2
        for l, tag in ((fs, "fast"), (rs, "ref")):
            if l is rs and not THOROUGH and c not in small[:3]:
                continue
            job(l, tag, c, starts=[None] * 4 if l is fs else [field(v, fieldbytes(c[4] > 1, h)) for v in (1, 0, 2, last)],
                lens=[33, 0, 70, 33], 
                tamper=dict(ALL if c in small[:5] or THOROUGH else dict(ALL, flips=5), index="all" if c[4] > 1 else 300))
    # 2. roots with a zero byte early on
    for z in (0, 1, 2, 3, 8):
        job(fs, "fast", [0, 24, 256, 2, 1, 0], zeros=z, starts=[None] * 2, tamper=dict(REST, pk=None, flips=4))
    # and keys that sign for a root they do not have
    for f, b, fn, nn in FAMS:
        for l, tag in ((fs, "fast"), (rs, "ref")):
            job(l, tag + " claims", [fn, nn, 16, 4, 2, 0], starts=[None] * 2, tamper=dict(pk=5), rest=dict(pk=5),
                claims=8 * nn if THOROUGH else 60)
            job(l, tag + " claims", [fn, nn, 256, 3, 1, 1], starts=[None] * 2, tamper=dict(pk=5), rest=dict(pk=5), claims=20)
    # 3. message lengths
    for l, tag in ((fs, "fast"), (rs, "ref")):
        job(l, tag, [0, 24, 16, 8, 4, 0], starts=[None] * 60 if l is fs else [field(v, 1) for v in range(60)],
            lens=R.sample(range(300), 50) + [55, 56, 63, 64, 119, 128, 4095, 4096, 65536, 100000],
            tamper=dict(msg=40, lengths=12), rest=dict(msg=40, lengths=12))
    # 4. identifiers: other parameter sets of the same key size
    same = {32: [1, 2, 3, 7, 8, 9, 0x10, 0x11, 0x12],
            24: [0xd, 0xe, 0xf, 0x13, 0x14, 0x15, ], 64: [4, 5, 6, 0xa, 0xb, 0xc]}
    samemt = {32: list(range(1, 9)) + list(range(0x11, 0x19)) + list(range(0x29, 0x31)),
              24: list(range(0x21, 0x29)) + list(range(0x31, 0x39)), 64: list(range(9, 0x11)) + list(range(0x19, 0x21))}
    for nm, mt, own in (("XMSS-SHA2_10_256", 0, 1), ("XMSS-SHAKE256_10_192", 0, 0x13), ("XMSS-SHAKE_10_512", 0, 0xa),
                        ("XMSSMT-SHA2_20/4_256", 1, 2), ("XMSSMT-SHAKE256_40/8_192", 1, 0x35), ("XMSSMT-SHA2_60/12_512", 1, 0x10)):
        nn = [x for x in names() if x[0] == nm][0][3]
        oids = [x for x in (samemt if mt else same)[nn] if x != own]
        job(fs if nn == 64 else fr, "fast", nm, foreign=0 if nn == 64 or not mt else 1, starts=[None] * 2, rest=dict(components=10),
            tamper=dict(REST, oids=oids, pk=24, flips=1, nodes=.2))
    # 5. every registered set at far-away indices, from keys made by the definition
    items = []
    for nm, mt, fn, nn, h, d in names():
        for i in range(2 if THOROUGH else 1):
            items.append(dict(id="%s.%d" % (nm, i), name=nm, want=want(fn, nn, 16, h, d, mt),
                              idx=field(R.randrange(1 << h), fieldbytes(mt, h)), m=R.randbytes(R.randrange(1, 90))))
    for fn, nn, w, h, d in ((0, 24, 4, 64, 16), (0, 32, 256, 63, 7)):
        items.append(dict(id="custom%d" % len(items), name=[fn, nn, w, h, d, 0], want=want(fn, nn, w, h, d),
                          idx=field(R.randrange(1 << h), fieldbytes(True, h)), m=R.randbytes(20)))
    for it, pk, sm in sparse_keys(rep, items):
        w = it["want"]
        few = dict(flips=1, nodes=(60 if THOROUGH else 14) / (w["d"] * (w["h"] // w["d"] + 60)), msg=4, pk=16, components=6, lengths=6,
                   exchange=4, multi=4, index=4)
        G.append((R.choice((fr, rr)), [dict(kind="open", id="made %s" % it["id"], params=it["name"], seed=R.getrandbits(30),
                                            items=[dict(pk=pk.hex(), sm=sm.hex())], tamper=few)]))
    # 6. messages beyond 4 GiB
    big = (1 << 32) + 17
    G.insert(0, (fr, [dict(kind="huge", id="more than 4 GiB", params=[0, 32, 256, 2, 1, 0], seed=R.getrandbits(30), mlen=big,
                           flips=[("last byte", -1)] + ([("first byte of the message", -big)] if THOROUGH else []),
                           cuts=[("without 4 GiB", 1 << 32)])]))
    check_traces(rep, "TraceVerify", G, timeout=14000 if THOROUGH else 700, name="manipulated", tlc_kw={"mem": "10g"})
    if rep.violations:
        return
    # 7. verdicts against the byte-level definition itself
    V = []
    for f, b, fn, nn in FAMS:
        V.append((fr, [dict(kind="record", id="verdicts %d %d" % (fn, nn), params=[fn, nn, 16, 4, 2, 0], want=want(fn, nn, 16, 4, 2),
                            seed=R.getrandbits(40), lens=[R.randrange(100)], starts=[None] * 2, rec="prefix", verdict=True,
                            wrong=6 if not THOROUGH else 60)]))
    check_traces(rep, "Oracle", V, timeout=600, name="verdicts", transform=flatten, tlc_kw={"mem": "8g"})
    models(rep)
    rep.cov["exhaustive"] = False
    rep.cov["rule"] = ("every bit, every length, every component of small signed messages; samples of these for every registered "
                       "set; one manipulation per event")
    rep.assumptions += ["manipulated inputs are judged by equality with what was signed: a collision of the hash function "
                        "would be reported as a violation"]
