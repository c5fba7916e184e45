"""C08: WOTS+ signatures verify and never cover a second digest."""
from ..base import THOROUGH, CheckError
from .. import base
from ..common import proved, lib, check_traces, model_ok, model_rejects, flatten, want, rng
from ..params import FAMS

LEVEL = "model_checking"


def models(rep):
    confs = [(2, 4, 3), (2, 6, 3), (3, 4, 3), (4, 3, 2), (4, 2, 2), (5, 2, 2), (8, 2, 2), (16, 1, 1)]
    if THOROUGH:
        confs += [(4, 4, 2), (16, 2, 2), (3, 5, 3), (2, 9, 4)]
    for W, L1, L2 in confs:
        if L1 * (W - 1) >= W ** L2:
            continue
        r = base.tlc("Wots", consts=dict(W=W, L1=L1, L2=L2, Lose=0), timeout=3000)
        model_ok(rep, "Wots", r, "all values, w=%d, %d+%d digits" % (W, L1, L2))
    r = base.tlc("Wots", consts=dict(W=4, L1=3, L2=2, Lose=1))
    model_rejects(rep, "Wots", r, "a checksum that loses its low digit")
    r = base.tlc("WotsReal", timeout=3000)
    model_ok(rep, "WotsReal", r, "every checksum for n in 24, 32, 64 and w in 4, 16, 256")


def run(rep):
    R = rng("c08")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        m = ex.submit(models, rep)
        on_code(rep, R)
        m.result()


def on_code(rep, R):
    try:
        libs = [(base.build_lib(f, s, ("-DHX_WOTS",), "_wots"), f, s) for f in (True, False) for s in ("stub", "real")]
    except CheckError as e:
        # the one-time signature functions are not there to be called on their own:
        # the ones inside whole signatures have to do
        rep.assumptions.append("one-time signatures observed inside whole signatures only: " + str(e)[:200])
        return inside(rep, R)
    G, O = [], []
    for f, b, fn, n in FAMS:
        for w in (4, 16, 256):
            for l, fast, sha in libs:
                if sha == "real" and not THOROUGH and (fn or w == 256 or n == 64):
                    continue
                if sha == "stub" and fn and w != 16 and not THOROUGH:
                    continue
                how = dict(sums=(2000 if THOROUGH or w < 256 else 400) if sha == "stub" else 300, near=60, random=100, all=THOROUGH or sha == "stub")
                if THOROUGH and sha == "stub":
                    how["sums"] = 20000
                for i in range(2 if THOROUGH else 1):
                    G.append((l, [dict(kind="wots", id="%s %s %d" % ("fast" if fast else "ref", (fn, n, w), len(G)), params=[fn, n, w, 4, 2, 0],
                                       seed=R.getrandbits(40), how=how)]))
            # byte for byte
            vals = ["%02x" % (0x11 * j) * n for j in ((0, 5, 15) if w == 16 else (0, 15))] if w < 256 else ["01" * n]
            vals += [R.randbytes(n).hex() for _ in range(1)]
            if fn and w == 256 and not THOROUGH:
                continue
            for l, fast, sha in libs:
                if sha == "real" and (fast or THOROUGH):
                    O.append((l, [dict(kind="wots", id="oracle %s" % ((fn, n, w, fast),), params=[fn, n, w, 4, 2, 0], seed=R.getrandbits(40),
                                       values=vals, oracle=True, want=want(fn, n, w, 4, 2))]))
    check_traces(rep, "TraceWots", G, timeout=3000 if THOROUGH else 600, name="positions", tlc_kw={"mem": "10g"})
    if not rep.violations:
        check_traces(rep, "Oracle", O, timeout=3000 if THOROUGH else 600, name="chains", transform=flatten, tlc_kw={"mem": "8g"})
    if not rep.violations:
        inside(rep, R)
    proved(rep, "WotsProof")
    rep.cov["exhaustive"] = False
    rep.cov["rule"] = "values for every checksum (w=256: sampled in the quick tier) and every digit, and random ones; positions on every chain"


def inside(rep, R):
    """One-time signatures inside whole signatures, every layer, all Winternitz parameters."""
    fr, rr = lib(True, "real"), lib(False, "real")
    G = []
    for f, b, fn, n in FAMS:
        for w in (4, 16, 256):
            if w == 256 and (fn or n == 64) and not THOROUGH:
                continue
            for l, tag in ((fr, "fast"), (rr, "ref")):
                G.append((l, [dict(kind="record", id="%s inside %s" % (tag, (fn, n, w)), params=[fn, n, w, 4, 2, 0], want=want(fn, n, w, 4, 2),
                                   seed=R.getrandbits(40), lens=[R.randrange(90) for _ in range(5)], starts=[None] * 2, rec="parts")]))
    check_traces(rep, "Oracle", G, timeout=600, name="inside signatures", transform=flatten, tlc_kw={"mem": "8g"})
