"""C10: the signing tool never exposes a signature whose index is not spent on disk."""
from ..base import THOROUGH, CheckError
from .. import base, ptrace
from ..common import proved, lib, check_traces, model_ok, model_rejects, rng
from ._index import field

LEVEL = "model_checking"


def run(rep):
    R = rng("c10")
    good = dict(Lock="TRUE", StoreFirst="TRUE", CheckStore="TRUE", Runs="{1,2}", Total=2)
    model_ok(rep, "SignTool", base.tlc("SignTool", consts=dict(good, Runs="{1,2,3}" if THOROUGH else "{1,2}"), timeout=1500),
             "kills, failures and interleavings of several runs")
    for c, inv in (("Lock", "Unique"), ("StoreFirst", "Spent"), ("CheckStore", "Spent")):
        model_rejects(rep, "SignTool", base.tlc("SignTool", consts=dict(good, **{c: "FALSE"})), c + " off")
    if not ptrace.available():
        raise CheckError("processes cannot be traced here")
    G = []

    def job(fast, mt, st, tag, parts=1, **kw):
        tool = base.build_tool("sign", mt, fast, "stub")
        for i in range(parts):
            j = dict(kind="signtool", id="%s %s %s %d.%d" % ("fast" if fast else "ref", st, tag, len(G), i), set=st, tool=tool, seed=R.getrandbits(40),
                     mlen=100, part=i, parts=parts)
            j.update(kw)
            j["seed"] = (R.getrandbits(40) if i == 0 else G[-1][1][0]["seed"])
            G.append((lib(fast), [j]))
    A, B, L = "XMSSMT-SHA2_20/4_192", "XMSSMT-SHAKE256_20/4_256", "XMSSMT-SHA2_40/8_192"
    # every call a crash and a fault point
    for k, (ahead, mlen) in enumerate(((0, 100), (31, 0), (3, 5000), (1, 4096), (7, 100000))):
        job(True, 1, A, "faults", 4, faults=True, ahead=ahead, mlen=mlen)
    job(True, 1, L, "faults", 4, faults=True, mlen=10)
    job(True, 0, "XMSS-SHA2_10_192", "faults", 4, faults=True, ahead=2, mlen=3000)
    job(False, 1, A, "faults", 4, faults=True, mlen=10)
    # the end of a key
    end = (1 << 20) - 1
    for s in (end - 1, end, end + 1):
        job(False, 1, A, "end", 4, faults=True, index=field(s, 3), mlen=60, **({} if THOROUGH else {"pick": 40}))
    job(False, 1, L, "end", 2, faults=True, index=field((1 << 40) - 2, 5), mlen=60, **({} if THOROUGH else {"pick": 30}))
    # two at the same time: from any point of the one, the other for a while
    job(True, 1, A, "grid", 16, grid=True, ahead=2, mlen=50, **({} if THOROUGH else {"pick": 90}))
    job(False, 1, B, "grid", 4, grid=True, mlen=50, pick=200 if THOROUGH else 20)
    job(True, 0, "XMSS-SHA2_10_192", "grid", 4, grid=True, mlen=5000, pick=200 if THOROUGH else 30)
    for st in (A, B):
        job(True, 1, st, "several", 4, random=400 if THOROUGH else 25, mlen=300, ahead=30)
    check_traces(rep, "TraceSpent", G, timeout=6000 if THOROUGH else 700, name="runs", tlc_kw={"mem": "8g"})
    proved(rep, "SignToolProof", ("SignTool", "SpentFirst"))
    rep.cov["rule"] = ("every system call from the opening of the key file on: killed before and after, failed, shortened; "
                       "two runs switched at pairs of calls; after each, further runs")
    rep.cov["exhaustive"] = False
