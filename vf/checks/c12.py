"""C12: operations touch only what they document."""
import subprocess
from ..base import THOROUGH
from .. import base
from ..common import lib, check_traces, model_ok, model_rejects, rng
from ..params import names, FAMS
from ._index import field, fieldbytes
from .c01 import legal

LEVEL = "model_checking"
LENS = [0, 1, 2, 3, 31, 32, 33, 55, 64, 100, 136, 1000, 4095, 4096, 4097]


def run(rep):
    R = rng("c12")
    r = base.tlc("Frame", consts=dict(Loose="FALSE"))
    model_ok(rep, "Frame", r, "frames of the calls")
    model_rejects(rep, "Frame", base.tlc("Frame", consts=dict(Loose="TRUE")), "a signer that may touch its root")
    asan = subprocess.run([base.CC, "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    env = {"LD_PRELOAD": asan, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=0:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0"}
    builds = []
    for fast in (True, False):
        builds.append((fast, "stub", (), ""))
        builds.append((fast, "stub", ("-fsanitize=address",), "-asan"))
    base.build_libs(builds)
    G = []

    def job(params, **kw):
        for fast, sha, extra, tag in builds:
            if extra and 2 in (kw.get("th"),):
                continue
            j = dict(kind="frame", id="%s%s %s %d" % ("fast" if fast else "ref", tag, params, len(G)), params=params, fast=fast,
                     seed=R.getrandbits(40), count=20, lens=LENS, at=R.choice(("end", "start")))
            if extra:
                j["env"] = env
            else:
                j["at"] = "end"
                G.append((base.build_lib(fast, sha, extra, tag), [dict(j, id=j["id"] + "s", at="start", **kw)]))
            j.update(kw)
            G.append((base.build_lib(fast, sha, extra, tag), [j]))
    # whole lives of small keys, past their ends
    for th, ds in ((3, (1, 2)), (4, (1, 2)), (5, (1,)), (2, (2, 3))):
        for d in ds:
            for k in range(th + 1):
                if legal(th, d, k):
                    job([0, 24, 4, th * d, d, k], count=2 ** (th * d) + 3, stride=1 if th * d < 6 else 9, th=th)
    for c in ([0, 32, 16, 4, 1, 0], [2, 64, 4, 6, 2, 0], [0, 24, 256, 4, 1, 0], [1, 32, 4, 6, 2, 1], [2, 24, 16, 6, 2, 0], [0, 64, 16, 3, 1, 0]):
        job(c, count=18, th=c[3] // c[4])
    # the real hash functions, message lengths around their blocks
    real = [(f, "real", x, t) for f, _, x, t in builds]
    base.build_libs(real)
    for i, (f, b, fn, n) in enumerate(FAMS):
        for fast, sha, extra, tag in real:
            lens = sorted({0, 1} | {x * bl - pre + e for bl in ((64, 128) if fn == 0 else (136, 168)) for x in (1, 2, 3)
                                    for pre in (0, (4 if n == 24 else n) + 3 * n, 9, 17) for e in (-1, 0, 1)})
            j = dict(kind="frame", id="real %s%s %s" % ("fast" if fast else "ref", tag, [fn, n]), params=[fn, n, 16, 3, 1, 1], fast=fast,
                     seed=R.getrandbits(40), count=7, at="end" if i % 2 else "start", lens=[0] + R.sample(lens, 6))
            G += [(base.build_lib(fast, sha, extra, tag), [dict(j, id=j["id"] + str(v), lens=[0] + R.sample([x for x in lens if x >= 0], 6), **({"env": env} if extra else {}))])
                  for v in range(4)]
    # index fields of every width, ends of large keys
    for h, d in ((8, 2), (16, 4), (20, 4), (24, 6), (33, 11), (40, 10), (56, 14), (60, 15), (64, 16), (63, 21)):
        ib = fieldbytes(d > 1, h)
        top = (1 << h) - (2 if h == 8 * ib else 1)
        for s in {top - 2, (1 << (h - 1)) - 1, R.randrange(1 << h)}:
            job([0, 24, 4, h, d, 0], start=field(s, ib), count=5, lens=[3, 0], th=h // d)
    # registered sets through the public functions
    for nm, mt, fn, n, h, d in names():
        th = h // d
        if th == 5 or (th == 10 and n == 24 and fn == 0 and d == 1):
            # (the sanitizer and the recomputing signer are slow)
            one = [b for b in builds if (not b[2] or (fn == 0 and n == 24 and th == 5) or THOROUGH) and (b[0] or th == 5)]
            for fast, sha, extra, tag in one:
                for at in (("end", "start") if fast and not extra else ("end",)):
                    j = dict(kind="frame", id="%s%s %s %s" % ("fast" if fast else "ref", tag, nm, at), params=nm, fast=fast, seed=R.getrandbits(40),
                             count=(9 if extra else 40) if fast else 1, lens=LENS, at=at, stride=4)
                    if extra:
                        j["env"] = env
                    G.append((base.build_lib(fast, sha, extra, tag), [j]))
    check_traces(rep, "TraceFrame", G, timeout=6000 if THOROUGH else 600, name="frames", tlc_kw={"mem": "10g"})
    rep.cov["rule"] = "every call on buffers of exactly the documented size against an inaccessible page on one side, inputs write-protected"
    rep.cov["exhaustive"] = False
