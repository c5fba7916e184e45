"""C18: the SHAKE functions are those of FIPS 202, at every length."""
from .. import base
from ..base import THOROUGH
from ..common import lib, check_traces, model_ok, model_rejects, rng

LEVEL = "model_checking"
GOOD = "SPECIFICATION Spec\nINVARIANTS Absorbed Output Prefix Injective\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
RATE = {"SHAKE128": 168, "SHAKE256": 136}


def run(rep):
    R = rng("c18")
    for r in (2, 3) + ((4,) if THOROUGH else ()):
        con = dict(R=r, MaxIn=2 * r + 1, MaxOut=2 * r + 1, Letters="{1, 2}", Mode='"good"')
        model_ok(rep, "Sponge", base.tlc("Sponge", cfg=GOOD, consts=con), "every input and output length; blocks of %d" % r)
    for mode, inv in (("lazy", "Absorbed"), ("apart", "Absorbed"), ("whole", "Output"), ("stale", "Absorbed")):
        con = dict(R=3, MaxIn=7, MaxOut=7, Letters="{1, 2}", Mode='"%s"' % mode)
        model_rejects(rep, "Sponge", base.tlc("Sponge", cfg=GOOD, consts=con), "sponge: " + mode, inv)
    calls = []
    for alg, r in RATE.items():
        # every length of the input, and of the output, over two blocks and a bit
        for l in range((4 if THOROUGH else 2) * r + 2):
            calls.append((alg, l, R.choice((24, 32, 64)), 2))
        for n in range((4 if THOROUGH else 2) * r + 2):
            calls.append((alg, R.choice((0, 7, 32, 64, 128)), n, 2))
        # both at once around the ends of blocks, and particular contents
        for l in (0, 1, 7, 8, 9, r - 9, r - 8, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r - 1, 3 * r):
            for n in (0, 1, r - 1, r, r + 1, 2 * r):
                calls.append((alg, l, n, R.randrange(3)))
        for _ in range(600 if THOROUGH else 40):
            calls.append((alg, R.randrange(1200), R.randrange(1, 400), 2))
        # the inputs of the scheme: prefix, key, message or address
        for n in (24, 32, 64):
            for pad in (4, 32, 64):
                for l in (pad + 2 * n, pad + 3 * n, pad + n + 32, pad + 3 * n + 32, pad + 4 * n + 1000):
                    calls.append((alg, l, n, R.randrange(3)))
        calls += [(alg, 4096, 4096, 2), (alg, 65536 + R.randrange(r), 32, 2), (alg, 33, 65536 + R.randrange(r), 2)]
    R.shuffle(calls)
    groups = [[] for _ in range(48)]
    for i, c in enumerate(sorted(calls, key=lambda c: -(c[1] + c[2]))):
        groups[i % len(groups)].append(c)
    L = [lib(True, "real"), lib(False, "real")]
    G = [(L[i % 2], [dict(kind="shake", id="calls %d" % i, how="calls", calls=sorted(g, key=lambda c: c[1]), seed=R.getrandbits(40))])
         for i, g in enumerate(groups)]
    ins = [(a, l, n) for a in RATE for l, n in ((0, 32), (31, 200), (168, 168), (136, 136), (300, 64))]
    G.append((L[0], [dict(kind="shake", id="again", how="again", ins=ins, reps=1000000 if THOROUGH else 400000, seed=R.getrandbits(40))]))
    ins = [(a, l, n) for a in RATE for l, n in ((20000, 500), (3000, 3000), (700, 32))]
    G.append((L[1], [dict(kind="shake", id="threads", how="threads", ins=ins, reps=40000 if THOROUGH else 6000, seed=R.getrandbits(40))]))
    for a in RATE:
        G.insert(0, (L[0], [dict(kind="shake", id="4 GiB %s" % a, how="long", algs=[a], len=(1 << 32) + 17, seed=1)]))
    check_traces(rep, "TraceShake", G, timeout=5000 if THOROUGH else 600, name="shake", tlc_kw={"mem": "8g"})
    rep.cov["rule"] = "every input length and every output length up to %d blocks and a bit; samples beyond" % (4 if THOROUGH else 2)
    rep.cov["exhaustive"] = False
    rep.assumptions += ["inputs of more than 4 GiB are only compared with each other"]
