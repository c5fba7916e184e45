"""Signs, opens and generates for somebody else: python3 -m vf.xworker LIB, a JSON line per request."""
import ctypes as C, json, sys
from .driver import get_params
from .xlib import Lib, Buf


class Ops:
    """What a session does with one build of the library; keys are byte strings."""

    def __init__(self, lib):
        self.lib, self.ps = lib, {}

    def p(self, spec):
        k = json.dumps(spec)
        if k not in self.ps:
            self.ps[k] = get_params(self.lib, spec)
        return self.ps[k]

    def off(self, p):
        return 4 if p.oid is not None else 0

    def gen(self, spec, into=None):
        """(the random source is the caller's)"""
        p = self.p(spec)
        o = self.off(p)
        pk, sk = Buf(o + p.pk_bytes), into or Buf(o + p.sk_bytes)
        if o:
            r = self.lib.c.hx_keypair(p.mt, pk.addr, sk.addr, p.oid)
        else:
            r = self.lib.c.hx_core_keypair(p.ptr, p.mt, pk.addr, sk.addr)
        return r, pk.get(), sk

    def sign(self, spec, skaddr, m):
        p = self.p(spec)
        sm, sl, mb = Buf(p.sig_bytes + len(m)), C.c_ulonglong(0xBAD), Buf(len(m), m)
        if self.off(p):
            r = self.lib.c.hx_sign(p.mt, skaddr, sm.addr, C.byref(sl), mb.addr, len(m))
        else:
            r = self.lib.c.hx_core_sign(p.ptr, p.mt, skaddr, sm.addr, C.byref(sl), mb.addr, len(m))
        return r, sm.get() if r == 0 and sl.value == sm.size else b"?" + sm.get()

    def open(self, spec, pk, sm):
        p = self.p(spec)
        smb, mb, ml, pkb = Buf(len(sm), sm), Buf(max(len(sm), p.sig_bytes)), C.c_ulonglong(0xBAD), Buf(len(pk), pk)
        if self.off(p):
            r = self.lib.c.hx_open(p.mt, mb.addr, C.byref(ml), smb.addr, len(sm), pkb.addr)
        else:
            r = self.lib.c.hx_core_open(p.ptr, p.mt, mb.addr, C.byref(ml), smb.addr, len(sm), pkb.addr)
        return r, mb.get(0, ml.value) if ml.value <= len(sm) else b"?"

    def index(self, spec, sk):
        p = self.p(spec)
        return int.from_bytes(sk[self.off(p):self.off(p) + p.index_bytes], "big")


def message(k, i):
    import random
    R = random.Random("%s/%s" % (k, i))
    return R.randbytes(R.choice((0, 1, 32, 64, 100, R.randrange(300))))


def main():
    lib = Lib(sys.argv[1])
    O = Ops(lib)
    for line in sys.stdin:
        q = json.loads(line)
        if q["op"] == "solo":
            if "given" in q:
                b = bytes.fromhex(q["given"])
                lib.c.hx_rng_given(b, len(b))
            else:
                lib.rng(1, q["seed"])
            r, pk, sk = O.gen(q["params"])
            out = []
            if r == 0:
                for i in range(q["n"]):
                    r2, sm = O.sign(q["params"], sk.addr, message(q["k"], i))
                    if r2:
                        break
                    out.append(sm.hex())
            a = {"ret": r, "pk": pk.hex(), "sigs": out}
        elif q["op"] == "sign":
            sk = bytes.fromhex(q["sk"])
            b = Buf(len(sk), sk)
            r, sm = O.sign(q["params"], b.addr, bytes.fromhex(q["m"]))
            a = {"ret": r, "sm": sm.hex(), "sk": b.get().hex()}
        print(json.dumps(a), flush=True)


if __name__ == "__main__":
    main()
