"""ctypes view of one build of the library (see harness/shim.c)."""
import ctypes as C

FIELDS = ["func", "n", "padding_len", "wots_w", "wots_log_w", "wots_len1",
          "wots_len2", "wots_len", "wots_sig_bytes", "full_height",
          "tree_height", "d", "index_bytes", "sig_bytes", "pk_bytes",
          "sk_bytes", "bds_k"]
U64, U32, PTR, INT = C.c_ulonglong, C.c_uint32, C.c_void_p, C.c_int
CANARY = 64          # bytes of guard on each side of every buffer


class Params:
    """One parameter set, as this build of the library computed it."""

    def __init__(self, lib, ptr, mt, oid=None, name=None):
        self.lib, self.ptr, self.mt, self.oid, self.name = lib, ptr, mt, oid, name
        for i, f in enumerate(FIELDS):
            setattr(self, f, lib.c.hx_get(ptr, i))

    def dump(self):
        return {f: getattr(self, f) for f in FIELDS}


class Buf:
    """A buffer with guard bytes on both sides."""

    def __init__(self, size, data=None, fill=0x5C):
        self.size = size
        self.raw = (C.c_ubyte * (size + 2 * CANARY))()
        C.memset(self.raw, 0xC7, size + 2 * CANARY)
        C.memset(self.addr, fill, size)
        if data is not None:
            self.set(data)

    def set(self, data, off=0):
        C.memmove(self.addr + off, bytes(data), len(data))

    @property
    def addr(self):
        return C.addressof(self.raw) + CANARY

    def get(self, off=0, n=None):
        if n is None:
            n = self.size - off
        return C.string_at(self.addr + off, n)

    def intact(self):
        g = b"\xC7" * CANARY
        return (C.string_at(C.addressof(self.raw), CANARY) == g and
                C.string_at(self.addr + self.size, CANARY) == g)


_libc = C.CDLL(None, use_errno=True)
_libc.mmap.restype = PTR
_libc.mmap.argtypes = [PTR, C.c_size_t, INT, INT, INT, C.c_long]
_libc.mprotect.argtypes = [PTR, C.c_size_t, INT]
_libc.munmap.argtypes = [PTR, C.c_size_t]


class Pages:
    """Room for a byte string that ends where an inaccessible page begins (and
    starts after one when it fills whole pages)."""

    def __init__(self, cap):
        self.room = (cap + 4095) // 4096 * 4096
        self.base = _libc.mmap(None, self.room + 8192, 3, 0x4022, -1, 0)   # NORESERVE|PRIVATE|ANONYMOUS
        if self.base in (None, 2 ** 64 - 1):
            raise MemoryError
        _libc.mprotect(self.base, 4096, 0)
        _libc.mprotect(self.base + 4096 + self.room, 4096, 0)
        self.end = self.base + 4096 + self.room

    def put(self, data):
        """Address of data, placed at the very end."""
        a = self.end - len(data)
        C.memmove(a, bytes(data), len(data))
        return a

    def free(self):
        _libc.munmap(self.base, self.room + 8192)


class GBuf:
    """Exactly as much memory as asked for, against an inaccessible page: the one
    behind it (at="end") or the one before it (at="start")."""

    def __init__(self, size, at="end", fill=0x5C):
        self.size = size
        self.room = (size + 4096) // 4096 * 4096
        self.base = _libc.mmap(None, self.room + 8192, 3, 0x22, -1, 0)
        if self.base in (None, 2 ** 64 - 1):
            raise MemoryError
        self.lo = self.base + 4096
        C.memset(self.lo, 0xC7, self.room)
        self.addr = self.lo + (self.room - size if at == "end" else 0)
        C.memset(self.addr, fill, size)
        _libc.mprotect(self.base, 4096, 0)
        _libc.mprotect(self.lo + self.room, 4096, 0)

    def set(self, data, off=0):
        C.memmove(self.addr + off, bytes(data), len(data))

    def fill(self, b):
        C.memset(self.addr, b, self.size)

    def get(self, off=0, n=None):
        return C.string_at(self.addr + off, self.size - off if n is None else n)

    def around(self):
        a = self.addr - self.lo
        return C.string_at(self.lo, a) + C.string_at(self.addr + self.size, self.room - a - self.size)

    def readonly(self, on=True):
        _libc.mprotect(self.lo, self.room, 1 if on else 3)

    def free(self):
        if self.base:
            _libc.munmap(self.base, self.room + 8192)
            self.base = None

    __del__ = free


class Lib:
    def __init__(self, path):
        self.path = path
        c = self.c = C.CDLL(path)
        c.hx_new.restype = PTR
        c.hx_free.argtypes = [PTR]
        c.hx_parse_oid.argtypes = [PTR, INT, U32]
        c.hx_str_to_oid.argtypes = [INT, C.POINTER(U32), C.c_char_p]
        c.hx_scan.argtypes = [INT, U32, U64, PTR, C.c_uint]
        c.hx_scan.restype = C.c_uint
        c.hx_init.argtypes = c.hx_init_thin.argtypes = [PTR] + [C.c_uint] * 7
        c.hx_get.argtypes = [PTR, INT]
        c.hx_get.restype = U64
        c.hx_core_keypair.argtypes = [PTR, INT, PTR, PTR]
        c.hx_core_sign.argtypes = [PTR, INT, PTR, PTR, PTR, PTR, U64]
        c.hx_core_many.argtypes = [PTR, INT, PTR, PTR, PTR, PTR, U64, U64, PTR]
        c.hx_core_many.restype = U64
        c.hx_core_open.argtypes = [PTR, INT, PTR, PTR, PTR, U64, PTR]
        c.hx_core_seed_keypair.argtypes = [PTR, PTR, PTR, PTR]
        c.hx_keypair.argtypes = [INT, PTR, PTR, U32]
        c.hx_sign.argtypes = [INT, PTR, PTR, PTR, PTR, U64]
        c.hx_open.argtypes = [INT, PTR, PTR, PTR, U64, PTR]
        if hasattr(c, "hx_wots_sign"):
            c.hx_wots_pkgen.argtypes = [PTR] * 5
            c.hx_wots_sign.argtypes = [PTR] * 6
            c.hx_wots_pk_from_sig.argtypes = [PTR] * 6
        c.hx_rng_script.argtypes = [INT, U64, PTR, INT, PTR, INT]
        c.hx_rng_log.argtypes = [INT, PTR, PTR]
        c.hx_randombytes.argtypes = [PTR, U64]
        c.hx_stream.argtypes = [U64, PTR, U64]
        c.hx_hash_calls.restype = U64
        c.hx_hash_kgcalls.restype = U64
        c.hx_rng_given.argtypes = [C.c_char_p, C.c_long]
        c.hx_hash_hook.argtypes = [PTR, U64]
        c.hx_hash_log_get.restype = PTR
        c.hx_hash_log_get.argtypes = [PTR]
        if hasattr(c, "hx_hash_log_sample"):
            c.hx_hash_log_sample.argtypes = [C.c_size_t, C.c_size_t, U32, U32]
        c.hx_hash_reset.argtypes = [C.c_size_t, C.c_size_t]

    # ---- parameters
    def oid_params(self, mt, oid, name=None):
        p = self.c.hx_new()
        if self.c.hx_parse_oid(p, mt, oid):
            self.c.hx_free(p)
            return None
        return Params(self, p, mt, oid, name)

    def str_to_oid(self, mt, s):
        o = U32(0xDEADBEEF)
        r = self.c.hx_str_to_oid(mt, C.byref(o), s.encode("latin-1"))
        return r, o.value

    def named(self, name):
        mt = 1 if name.startswith("XMSSMT") else 0
        r, oid = self.str_to_oid(mt, name)
        return None if r else self.oid_params(mt, oid, name)

    def custom(self, func, n, w, h, d, k=0, thin=0):
        """func: 0 SHA2, 1 SHAKE128, 2 SHAKE256.  thin: for a library with thinwots.c."""
        p = self.c.hx_new()
        pad = {24: 4, 32: 32, 64: 64}[n]
        if (self.c.hx_init_thin if thin else self.c.hx_init)(p, self.c.hx_func_code(func), n, pad, w, h, d, k):
            self.c.hx_free(p)
            return None
        return Params(self, p, 1 if d > 1 else 0)

    # ---- random source
    def rng(self, mode=1, seed=1, opens=(), reads=()):
        self._os = (C.c_int * max(1, len(opens)))(*opens)
        self._rs = (C.c_long * max(1, len(reads)))(*reads)
        self.c.hx_rng_script(mode, seed, self._os, len(opens), self._rs, len(reads))

    def rng_log(self):
        out = []
        a, b = C.c_long(), C.c_long()
        for i in range(self.c.hx_rng_logn()):
            k = self.c.hx_rng_log(i, C.byref(a), C.byref(b))
            out.append((k, a.value, b.value))
        return out

    def stream(self, seed, n):
        b = (C.c_ubyte * max(1, n))()
        self.c.hx_stream(seed, b, n)
        return bytes(b)[:n]

    # ---- core API (no OID)
    def core_keypair(self, p, seed=None):
        pk, sk = Buf(p.pk_bytes), Buf(p.sk_bytes)
        if seed is not None:
            self.rng(1, seed)
        r = self.c.hx_core_keypair(p.ptr, p.mt, pk.addr, sk.addr)
        self.rng(0)
        return r, pk, sk

    def core_sign(self, p, sk, m):
        """Signs with sk (a Buf, updated).  Returns ret, smlen, sm Buf, m Buf."""
        sm = Buf(p.sig_bytes + len(m))
        mb = Buf(len(m), m)
        smlen = U64(0xBADBADBADBAD)
        r = self.c.hx_core_sign(p.ptr, p.mt, sk.addr, sm.addr, C.byref(smlen), mb.addr, len(m))
        return r, smlen.value, sm, mb

    def core_open(self, p, sm, pk, smlen=None):
        if smlen is None:
            smlen = len(sm)
        smb = Buf(len(sm), sm)
        mb = Buf(max(len(sm), p.sig_bytes))
        mlen = U64(0xBADBADBADBAD)
        pkb = Buf(len(pk), pk)
        r = self.c.hx_core_open(p.ptr, p.mt, mb.addr, C.byref(mlen), smb.addr, smlen, pkb.addr)
        ok = smb.intact() and mb.intact() and pkb.intact() and smb.get() == sm and pkb.get() == pk
        return r, mlen.value, mb, ok

    # ---- public API (with OID)
    def keypair(self, mt, oid, pkb, skb, seed=None):
        if seed is not None:
            self.rng(1, seed)
        r = self.c.hx_keypair(mt, pkb.addr, skb.addr, oid)
        self.rng(0)
        return r

    def sign(self, mt, sk, m, sigb):
        sm = Buf(sigb + len(m))
        mb = Buf(len(m), m)
        smlen = U64(0xBADBADBADBAD)
        r = self.c.hx_sign(mt, sk.addr, sm.addr, C.byref(smlen), mb.addr, len(m))
        return r, smlen.value, sm, mb

    def open(self, mt, sm, pk, sigb, smlen=None):
        if smlen is None:
            smlen = len(sm)
        smb = Buf(len(sm), sm)
        mb = Buf(max(len(sm), sigb))
        mlen = U64(0xBADBADBADBAD)
        pkb = Buf(len(pk), pk)
        r = self.c.hx_open(mt, mb.addr, C.byref(mlen), smb.addr, smlen, pkb.addr)
        ok = smb.intact() and mb.intact() and pkb.intact() and smb.get() == sm and pkb.get() == pk
        return r, mlen.value, mb, ok
