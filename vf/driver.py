"""Runs one job against one build of the library and records what happens.

    python3 -m vf.driver job.json out.ndjson

Every output line is {"hdr": ...} (a new key) or {"ev": ...} (one call on the
latest key).  The parent (vf/jobs.py) notices when this process dies or hangs
in a call and appends that as an event of its own.
"""
import ctypes as C, json, os, random, sys, time
from .xlib import Lib, Buf, U64

W8 = 8


def b2l(b):
    return list(b)


class Interner:
    def __init__(self):
        self.d = {}

    def __call__(self, b):
        return self.d.setdefault(b, len(self.d) + 1)


def get_params(lib, spec):
    if isinstance(spec, str):
        p = lib.named(spec)
    else:
        p = lib.custom(*spec)
    if p is None:
        raise SystemExit("cannot set up parameters %r" % (spec,))
    return p


def message(rng, lens, i):
    n = lens[i % len(lens)]
    if n < 0:
        n = rng.randrange(-n)
    return rng.randbytes(n) if n < 4096 else bytes([rng.randrange(256)]) * n


class Key:
    """A key under observation."""

    def __init__(self, lib, p, seed, job, emit):
        self.lib, self.p, self.job, self.emit = lib, p, job, emit
        self.mt = p.mt
        self.work = bool(job.get("work"))
        if self.work:
            lib.c.hx_hash_reset(p.padding_len, p.n)
        # through the public functions (keys carry an OID) or the core ones
        self.off = off = 4 if p.oid is not None and not job.get("core") else 0
        if job.get("fabricate"):
            # A secret key whose regular fields are right and whose signer state
            # is blank: for what does not depend on that state.
            rnd = random.Random(seed)
            sk = bytes(p.index_bytes) + rnd.randbytes(4 * p.n)
            oid = p.oid.to_bytes(4, "big") if off else b""
            self.pk = oid + rnd.randbytes(2 * p.n)
            self.sk = Buf(off + p.sk_bytes, fill=0)
            self.sk.set(oid + sk)
        elif off:
            pk, self.sk = Buf(4 + p.pk_bytes), Buf(4 + p.sk_bytes)
            self.genret = lib.keypair(p.mt, p.oid, pk, self.sk, seed)
            self.pk = pk.get()
        else:
            self.genret, pk, self.sk = lib.core_keypair(p, seed)
            self.pk = pk.get()
        ib, n = p.index_bytes, p.n
        self.skseed, self.skprf = self.sk.get(off + ib, n), self.sk.get(off + ib + n, n)
        self.const = self.constant(self.sk)
        if "start" in job and job["start"] is not None:
            self.sk.set(bytes(job["start"]), off)
        self.R, self.W, self.A = Interner(), Interner(), Interner()
        verify = job.get("verify", True)
        self.stride = verify if isinstance(verify, int) and verify > 1 else 1
        self.verify = bool(verify)
        self.layers = bool(job.get("layers"))
        emit({"hdr": {"id": job["id"], "h": p.full_height, "d": p.d, "th": p.tree_height,
                      "n": p.n, "w": p.wots_w, "len": p.wots_len, "bdsk": p.bds_k,
                      "ib": ib, "sigb": p.sig_bytes, "start": b2l(self.sk.get(off, ib)),
                      "verify": self.verify, "layers": self.layers, "work": self.work,
                      "jumps": job.get("jumpmode", "no")}})
        if self.work and not job.get("fabricate"):
            emit({"ev": {"op": "gen", "calls": clamp(lib.c.hx_hash_calls()),
                         "units": clamp(-(-lib.c.hx_hash_kgcalls() // p.wots_len))}})

    def constant(self, sk):
        """What signing leaves alone: identifier, seeds, root, public seed."""
        o = self.off + self.p.index_bytes
        return sk.get(0, self.off) + sk.get(o, 4 * self.p.n)

    def call_sign(self, sk, m):
        if self.off:
            return self.lib.sign(self.mt, sk, m, self.p.sig_bytes)
        return self.lib.core_sign(self.p, sk, m)

    def call_open(self, sm):
        if self.off:
            return self.lib.open(self.mt, sm, self.pk, self.p.sig_bytes)
        return self.lib.core_open(self.p, sm, self.pk)

    def gone(self):
        """No 8 consecutive bytes of either secret seed are left in the key."""
        b = self.sk.get()
        return not any(s[i:i + W8] in b for s in (self.skseed, self.skprf)
                       for i in range(len(s) - W8 + 1))

    def split(self, sm):
        p = self.p
        o = p.index_bytes
        rid = self.R(sm[o:o + p.n])
        o += p.n
        w, a = [], []
        for _ in range(p.d):
            w.append(self.W(sm[o:o + p.wots_sig_bytes]))
            o += p.wots_sig_bytes
            a.append(self.A(sm[o:o + p.tree_height * p.n]))
            o += p.tree_height * p.n
        return rid, w, a

    def sign(self, m, op="sign", sk=None, check=True):
        lib, p, ib = self.lib, self.p, self.p.index_bytes
        sk = sk or self.sk
        if self.work:
            lib.c.hx_hash_reset(p.padding_len, p.n)
        r, smlen, sm, mb = self.call_sign(sk, m)
        ev = {"op": op, "ret": r, "mlen": len(m)}
        if self.work:
            ev["calls"] = clamp(lib.c.hx_hash_calls())
            ev["units"] = clamp(-(-lib.c.hx_hash_kgcalls() // p.wots_len))
        out = sm.get()
        ev["ia"] = b2l(sk.get(self.off, ib))
        ev["mem"] = bool(sm.intact() and sk.intact() and mb.intact() and mb.get() == m)
        ev["cst"] = self.constant(sk) == self.const
        ev["gone"] = not ev["cst"] and self.gone()
        if r == 0:
            ev["slen"] = clamp(smlen)
            ev["si"] = b2l(out[:ib])
            ev["tail"] = out[p.sig_bytes:] == m
            if self.layers:
                ev["rid"], ev["w"], ev["a"] = self.split(out)
            if self.verify:
                vr, vl, vb, ok = self.call_open(out)
                ev["vret"], ev["vlen"] = vr, clamp(vl)
                ev["vmsg"] = ok and vb.get(0, len(m)) == m
        else:
            ev["valid"] = False
            if not self.job.get("fabricate"):
                vr, vl, vb, ok = self.call_open(out)
                ev["valid"] = vr == 0
        self.emit({"ev": ev})
        return r, out


def clamp(x):
    return int(x) if 0 <= x < 2 ** 31 else -1


def run_life(lib, job, emit):
    """A stretch of a key's life: `count' calls, then `extra' more."""
    p = get_params(lib, job["params"])
    rng = random.Random(job.get("mseed", job["seed"]))
    lens = job.get("lens", [32])
    key = Key(lib, p, job["seed"], job, emit)
    forks = job.get("forks", 0)
    n = job["count"]
    if n == "all":
        cap = 2 ** p.full_height
        n = (cap - 1 if p.full_height == 8 * p.index_bytes else cap) + job.get("extra", 3)
    jumps = job.get("jumps")
    plan = list(job.get("plan", []))
    for i in range(n):
        if plan and plan[0][0] == i:
            # many signatures in a row, without an event each
            _, many, every = plan.pop(0)
            o = key.off
            sm, mo = Buf(p.sig_bytes + 8), Buf(p.sig_bytes + 8)
            most = (C.c_ulonglong * (2 * p.d))()
            ok = lib.c.hx_core_many(p.ptr, p.mt, key.sk.addr + o, key.pk[o:], sm.addr, mo.addr, many, every,
                                    C.addressof(most) if key.work else None)
            ev = {"op": "many", "n": many, "ok": ok, "ia": b2l(key.sk.get(o, p.index_bytes)),
                  "mem": bool(sm.intact() and mo.intact() and key.sk.intact()),
                  "cst": key.constant(key.sk) == key.const}
            if key.work:
                ev["most"] = [[clamp(-(-most[2 * j] // p.wots_len)), clamp(most[2 * j + 1])] for j in range(p.d)]
            emit({"ev": ev})
        m = message(rng, lens, i)
        if jumps is not None:
            if i % job.get("stay", 1) == 0:
                if not jumps:
                    break
                to = jumps.pop(0)
                key.sk.set(bytes(to), key.off)
                emit({"ev": {"op": "jump", "to": to}})
        before = None
        if forks and i % forks == 0:
            before = key.sk.get()
        key.sign(m)
        if before is not None:
            b = Buf(len(before), before)
            if key.constant(b) == key.const:
                key.sign(m + b"!", op="fork", sk=b)


def main():
    job = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], "w", buffering=1 << 16)

    def emit(o):
        out.write(json.dumps(o, separators=(",", ":")) + "\n")

    from . import driver_kinds
    lib = Lib(job["lib"]) if "lib" in job else None
    for j in job["jobs"]:
        # which call a crash or hang belongs to
        emit({"begin": j.get("id")})
        out.flush()
        kind = j.get("kind", "life")
        try:
            if kind == "life":
                run_life(lib, j, emit)
            else:
                getattr(driver_kinds, "run_" + kind)(lib, j, emit)
        except (OverflowError, MemoryError, ValueError, IndexError, ZeroDivisionError):
            # what the library said cannot be worked with (sizes beyond all memory, ...)
            import traceback
            traceback.print_exc()
            out.flush()
            sys.stderr.flush()
            os._exit(77)
        emit({"end": j.get("id")})
    out.flush()


if __name__ == "__main__":
    main()
