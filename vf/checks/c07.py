"""C07: parameter-set names, identifiers and derived sizes are those of the standards."""
from ..base import THOROUGH
from ..common import lib, check_traces, flatten, rng
from ..params import names, FAMS

LEVEL = "model_checking"


def variants(nm, R):
    """Names that are not registered (or, by accident, are): edits of registered ones."""
    out = {nm + c for c in " _0/\t"} | {c + nm for c in " X_"} | {nm[:-i] for i in range(1, len(nm))} | {nm[i:] for i in range(1, 8)}
    out |= {nm.lower(), nm.upper(), nm.replace("-", "_"), nm.replace("_", "-"), nm.replace("/", "_"), nm.replace("/", "")}
    for i in range(len(nm)):
        out.add(nm[:i] + nm[i + 1:])
        out.add(nm[:i] + nm[i].swapcase() + nm[i + 1:])
        for c in R.sample("0123456789ABHKMTSX_-/", 4):
            out.add(nm[:i] + c + nm[i + 1:])
            out.add(nm[:i] + c + nm[i:])
    return out


def run(rep):
    R = rng("c07")
    fr, rr = lib(True, "real"), lib(False, "real")
    fs, rs = lib(True), lib(False)
    reg = [x[0] for x in names()]
    strs = set(reg) | {"", "XMSS", "XMSSMT", "XMSS-", "XMSS-SHA2", "-", "0", "1", "0x00000001"}
    for nm in reg:
        v = sorted(variants(nm, R))
        strs |= set(v if THOROUGH else R.sample(v, 40))
    for fam in ("SHA2", "SHAKE", "SHAKE128", "SHAKE256", "SHA256", "SHA512", "SHA3"):
        for bits in ("192", "256", "512", "128", "224", "384"):
            for h in (5, 10, 15, 16, 20, 25, 40, 60):
                strs.add("XMSS-%s_%d_%s" % (fam, h, bits))
                for d in (1, 2, 3, 4, 5, 6, 8, 12, 20):
                    strs.add("XMSSMT-%s_%d/%d_%s" % (fam, h, d, bits))
    strs = sorted(strs)
    cust = [(f, n, w, h, d) for f in (0, 1, 2) for n in (24, 32, 64) for w in (4, 16, 256, 2, 8, 32, 64, 128, 255, 512, 0, 1)
            for h, d in ((4, 1), (4, 2), (8, 2), (9, 3), (10, 1), (16, 4), (20, 4), (33, 11), (40, 8), (60, 12), (63, 7), (64, 16))
            if not (f == 1 and n == 64)]
    G = []
    per = 400
    for l, rec in ((fr, False), (rr, True)):
        for i in range(0, len(strs), per):
            G.append((l, [dict(kind="names", id="names %s %d" % (rec, i), recomputing=rec,
                               names=[(mt, s) for s in strs[i:i + per] for mt in (0, 1)])]))
        oids = sorted(set(range(0, 300)) | {x << s for x in range(0, 60) for s in (8, 16, 24)} | {x + (1 << s) for x in range(60) for s in range(7, 32)}
                      | {0xffffffff - x for x in range(60)} | {R.getrandbits(32) for _ in range(300)})
        G.append((l, [dict(kind="names", id="identifiers %s" % rec, recomputing=rec, oids=[(mt, o) for o in oids for mt in (0, 1)], custom=cust)]))
        for c in range(16):      # every 32-bit identifier
            G.append((l, [dict(kind="names", id="scan %s %d" % (rec, c), recomputing=rec,
                               scan=[(mt, c << 28, 1 << 28) for mt in (0, 1)])]))
    # the public functions
    unknown = [0, 0x39, 0xff, 0x100, 0x101, 0x10000, 0x01000000, 0x0d000000, 0x80000001, 0xffffffff, 0x15000000, 0x38000000]
    table = {0: 21, 1: 56}
    for l, rec in ((fs, False), (rs, True)):
        items = []
        for mt in (0, 1):
            for o in unknown + ([22, 40, 56] if not mt else [57]):
                items.append((mt, o, ["keypair", "sign", "open"]))
        G.append((l, [dict(kind="oidapi", id="unknown %s" % rec, seed=R.getrandbits(30), items=items)]))
        for nm, mt, fn, n, h, d in names():
            o = [x for x in names() if x[1] == mt].index((nm, mt, fn, n, h, d)) + 1
            th = h // d
            calls = ["open"]
            if th <= 5 or (th == 10 and n == 24 and fn == 0) or (th == 10 and not rec and d == 1) or (th == 10 and THOROUGH):
                calls.append("keypair")
            if not rec or th <= 5 or (th == 10 and n == 24 and fn == 0):
                calls.append("sign")
            G.append((l, [dict(kind="oidapi", id="calls %s %s" % (rec, nm), seed=R.getrandbits(30), items=[(mt, o, calls)])]))
    check_traces(rep, "TraceParams", G, timeout=600, name="registry", transform=flatten, tlc_kw={"mem": "6g"})
    rep.cov["rule"] = "all registered names and edits of them; all 2^32 identifiers of both kinds; the public functions with known and unknown identifiers"
    rep.cov["identifiers_scanned_per_kind"] = 1 << 32
    rep.cov["exhaustive"] = False
