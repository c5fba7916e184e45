"""C13: key generation uses fresh, complete randomness in the documented layout."""
import json
from ..base import THOROUGH
from .. import base
from ..common import lib, check_traces, model_ok, rng
from ..params import names, FAMS

LEVEL = "model_checking"


def histories(rep, need, outcomes, events, fails):
    """Complete behaviours of Rng, as scripts for the device."""
    cfg = "SPECIFICATION Spec\nINVARIANTS Complete NeverTooMuch NothingLost\nCHECK_DEADLOCK FALSE\n"
    r = base.tlc("Rng", cfg=cfg, consts=dict(Needs="{%d}" % need, Chunk=1048576, Outcomes="{%s}" % ",".join(map(str, outcomes)),
                                             MaxEvents=events, MaxFails=fails, Emit="TRUE"), workers=1, timeout=1200)
    model_ok(rep, "Rng", r, "histories of the device for %d bytes, up to %d events" % (need, events))
    out = set()
    for l in r.printed:
        h = json.loads(json.loads(l))
        out.add((tuple(-1 if e["op"] == "openfail" else 0 for e in h if e["op"] != "read"),
                 tuple(e["r"] for e in h if e["op"] == "read")))
    return sorted(out)


def run(rep):
    R = rng("c13")
    r = base.tlc("Rng", consts=dict(Needs="{1,6}", Chunk=4, Outcomes="{0,1,2,3}", MaxEvents=11 if THOROUGH else 9, MaxFails=4 if THOROUGH else 3, Emit="FALSE"))
    model_ok(rep, "Rng", r, "requests longer than one chunk; returns when the device works again")
    fs, rs = lib(True), lib(False)
    G = []
    for n, conf in ((24, [0, 24, 4, 2, 1, 0]), (32, [2, 32, 4, 4, 2, 0]), (64, [0, 64, 4, 2, 1, 0])):
        H = histories(rep, 3 * n, [0, 1, n - 1, n, n + 1, 2 * n, 3 * n - 1], 7 if THOROUGH else 6, 3)
        # and behaviours of single bytes, long runs of failures
        long = [((-1,) * 40 + (0,), (1,) * (3 * n)), ((0,), (-1,) * 300), ((0,), (0,) * 300), ((0,), (-1, 1, 0) * (3 * n)),
                ((-1,) * 300 + (0,), (0, -1) * 20 + (2,) * (3 * n)), ((0,), tuple(range(1, 3 * n)))]
        long += [((-1,) * R.randrange(5) + (0,), tuple(R.choice((-1, 0, 1, 2, 5, 16, R.randrange(1, 3 * n))) for _ in range(60))) for _ in range(20)]
        rest = [h for h in H if len(h[1]) + len(h[0]) > 5]
        short = [h for h in H if len(h[1]) + len(h[0]) <= 5]
        for l, tag in ((fs, "fast"), (rs, "ref")):
            pick = long + short + (rest if THOROUGH else R.sample(rest, min(len(rest), 400)))
            for i in range(0, len(pick), 150):
                G.append((l, [dict(kind="rng", id="%s %d %d" % (tag, n, i), params=conf, seed=R.getrandbits(40), scripts=pick[i:i + 150])]))
    # plain requests, of more than a chunk too
    plain = [((), (), w) for w in (0, 1, 2, 31, 255, 256, 4096, 65536, 1048575, 1048576, 1048577, 2097152, 2500000)]
    plain += [((0,), tuple(R.choice((-1, 0, 1, 1000, 1 << 20, 1 << 19, 255, 256, 65536)) for _ in range(12)), w) for w in (100, 1048577, 2000001)]
    # every registered set, through the public functions
    for l, tag in ((fs, "fast"), (rs, "ref")):
        G.append((l, [dict(kind="rng", id=tag + " plain", seed=R.getrandbits(40), plain=plain)]))
        for c in ([0, 24, 4, 2, 1, 0], [0, 32, 4, 4, 2, 0], [0, 24, 4, 6, 3, 0], [1, 32, 4, 3, 1, 0], [2, 64, 4, 4, 2, 0], [2, 24, 4, 2, 1, 0]):
            G.append((l, [dict(kind="rng", id="%s contexts %s" % (tag, c), params=c, seed=R.getrandbits(40), contexts=True)]))
            G.append((l, [dict(kind="rng", id="%s device %s" % (tag, c), params=c, seed=R.getrandbits(40), real=40)]))
        for nm, mt, fn, n, h, d in names():
            th = h // d
            if th == 5 or (th == 10 and n == 24 and fn == 0 and d == 1) or (THOROUGH and th == 10):
                some = [((), ()), ((-1, 0), (-1, n, 0, 1))] if th == 5 else [((), (n, 2 * n))]
                G.append((l, [dict(kind="rng", id="%s %s" % (tag, nm), params=nm, core=False, seed=R.getrandbits(40), scripts=some)]))
    check_traces(rep, "TraceRng", G, timeout=3000 if THOROUGH else 600, name="device", tlc_kw={"mem": "8g"})
    rep.cov["rule"] = ("histories of the device generated by TLC from Rng (open failures; reads that fail, end or fall short), replayed; "
                       "all of them up to five events, and long and random ones")
    rep.cov["exhaustive"] = False
