"""What C02 and C03 share: keys found at any stored index."""
from .. import base
from ..common import lib, check_traces, model_ok, model_rejects, rng
from ..params import names


def field(v, ib):
    return list((v % (1 << (8 * ib))).to_bytes(ib, "big"))


def fieldbytes(mt, h):
    return (h + 7) // 8 if mt else 4


def signer_models(rep):
    for B, NB, H in ((2, 2, 4), (2, 2, 3), (1, 4, 4), (3, 2, 5), (2, 3, 5), (1, 3, 2), (2, 1, 2), (4, 1, 3)):
        r = base.tlc("Signer", consts={"B": B, "NB": NB, "H": H}, workers=2)
        model_ok(rep, "Signer", r, "every start index; %d digits of %d bits, height %d" % (NB, B, H))


def carries(h, ib, R, n_random=3):
    """In-range indices worth trying: every carry, bit boundaries, the end, random ones."""
    s = {0, 1, (1 << h) - 3, (1 << h) - 2}
    for b in range(8, h + 1, 8):
        s.add((1 << b) - 2)
    for b in (31, 32, 33, 63):
        if b <= h:
            s.add((1 << b) - 1)
    for _ in range(n_random):
        s.add(R.randrange(1 << h))
    return sorted(x for x in s if 0 <= x < (1 << h))


def beyond(h, ib, R):
    """Stored indices that name no one-time key."""
    top = 1 << (8 * ib)
    if 8 * ib == h:
        return [top - 1]
    s = {1 << h, (1 << h) + 1, top - 1, top - 2, R.randrange(1 << h, top)}
    for b in range(h, 8 * ib):
        s.add(1 << b)
        s.add((1 << b) | R.randrange(1 << h))
    return sorted(s)


# th small enough for the recomputing signer, together with odd index widths
CUSTOM = [(0, 24, 4, h, d, 0) for h, d in
          ((8, 4), (16, 4), (24, 6), (32, 8), (40, 10), (48, 12), (56, 14), (60, 15), (63, 21), (64, 16), (6, 2), (12, 4),
           (9, 3), (33, 11), (4, 1), (7, 1), (8, 1))]


def jobs_for(R, fast, starts, count, verify_ref=True):
    """One group per parameter set; `starts(h, ib)' gives the indices to start from."""
    G = []
    path = lib(fast)
    for nm, mt, fn, n, h, d in names():
        th, ib = h // d, fieldbytes(mt, h)
        js = []
        for i, v in enumerate(starts(h, ib)):
            inr = v < (1 << h) - (1 if h == 8 * ib else 0)
            j = dict(params=nm, seed=R.getrandbits(40), count=count, start=field(v, ib), lens=[0, 40])
            if fast:
                # signing does not need a real state; making one may take minutes
                if th > 5 or i % 3 or fn or n != 24:
                    j.update(fabricate=True, verify=False)
                else:
                    j.update(verify=False)
            else:
                costly = (2 if fn or n == 64 else 1) * (1 if th <= 5 else 4 * d)
                if inr and (th > 10 or costly > 24):
                    continue
                if costly > 1:
                    # fewer of the expensive ones
                    if inr and i % (1 + costly) != R.randrange(1 + costly):
                        continue
                    j.update(fabricate=True, verify=False)
            j["id"] = "%s %s @%x" % ("fast" if fast else "ref", nm, v)
            js.append(j)
        if js:
            G.append((path, js))
    for c in CUSTOM:
        fn, n, w, h, d, k = c
        th, ib = h // d, fieldbytes(d > 1, h)
        js = []
        for i, v in enumerate(starts(h, ib)):
            j = dict(params=list(c), seed=R.getrandbits(40), count=count, start=field(v, ib), lens=[0, 40])
            j["id"] = "%s %s @%x" % ("fast" if fast else "ref", c, v)
            if fast:
                j["verify"] = False
            js.append(j)
        G.append((path, js))
    return G
