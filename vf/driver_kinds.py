"""Further kinds of driver jobs (see driver.py)."""
import random
from .xlib import Buf

FUNCS = ["SHA2", "SHAKE128", "SHAKE256"]


def spec_params(p, func):
    """The fields XmssParams!Derive wants, from what was asked for (not from the library's struct)."""
    return dict(mt=bool(p["mt"]), func=FUNCS[p["func"]], n=p["n"], w=p["w"], h=p["h"], d=p["d"])


def run_record(lib, job, emit):
    """Signatures of one key as records for Oracle.  job: params, seed, want (what the
    parameters mean: mt func n w h d), starts: [index field or null], lens, rec, keygen."""
    from .driver import Key, message
    from .driver import get_params
    p = get_params(lib, job["params"])
    rnd = random.Random(job["seed"])
    sp = spec_params(job["want"], None)
    key = Key(lib, p, job["seed"], dict(job, start=None), lambda o: None)
    ib, n, off = p.index_bytes, p.n, key.off
    emit({"hdr": {"id": job["id"]}})
    if job.get("derive"):
        if not lib.c.hx_has_seed_keypair():
            return
        for sd in (rnd.randbytes(3 * n), bytes(range(1, 3 * n + 1))):
            pkb, skb, sb = Buf(p.pk_bytes), Buf(p.sk_bytes), Buf(3 * n, sd)
            lib.c.hx_core_seed_keypair(p.ptr, pkb.addr, skb.addr, sb.addr)
            emit({"ev": dict(sp, kind="seedkeygen", seed=sd.hex(), pk=pkb.get().hex(), sk=skb.get(0, ib + 4 * n).hex())})
        return
    if job.get("keygen"):
        emit({"ev": dict(sp, kind="keygen", sk=key.sk.get(off, ib + 4 * n).hex(), pk=key.pk[off:].hex())})
    for i, st in enumerate(job["starts"]):
        if st is not None:
            key.sk.set(bytes(st), off)
        m = message(rnd, job["lens"], i)
        before = key.sk.get(off, ib + 4 * n)
        r, smlen, sm, mb = key.call_sign(key.sk, m)
        if r != 0:
            emit({"ev": dict(sp, kind="refused", sk=before.hex(), m=m.hex(), ret=r)})
            continue
        emit({"ev": dict(sp, kind=job["rec"], sk=before.hex(), pk=key.pk[off:].hex(), m=m.hex(),
                         sm=sm.get()[:smlen].hex() if smlen <= sm.size else "")})
        if job.get("verdict"):
            vr, vl, vb, ok = key.call_open(sm.get())
            emit({"ev": dict(sp, kind="verdict", pk=key.pk[off:].hex(), sm=sm.get().hex(), ok=vr == 0)})
            for _ in range(job.get("wrong", 0)):
                x = flip(sm.get(), rnd.randrange(8 * sm.size))
                vr, vl, vb, ok = key.call_open(x)
                emit({"ev": dict(sp, kind="verdict", pk=key.pk[off:].hex(), sm=x.hex(), ok=vr == 0)})


class Opener:
    """Calls of the verifier, recorded for TraceVerify."""

    def __init__(self, lib, p, core, emit, cap):
        from .xlib import Pages
        self.lib, self.p, self.emit = lib, p, emit
        self.core = core or p.oid is None
        self.ids = {}
        self.sm, self.pk = Pages(cap), Pages(4 + p.pk_bytes)
        self.n = 0

    def id(self, b):
        return self.ids.setdefault(b, len(self.ids) + 1)

    def triple(self, pk, sm):
        if len(sm) < self.p.sig_bytes:
            return [self.id(pk), 0, self.id(sm)]
        return [self.id(pk), self.id(sm[:self.p.sig_bytes]), self.id(b"m" + sm[self.p.sig_bytes:])]

    def made(self, pk, sm):
        self.emit({"ev": {"op": "made", "t": self.triple(pk, sm)}})

    def open(self, what, pk, sm):
        """pk as the functions take it (with identifier for the public ones)."""
        import ctypes as C
        from .xlib import U64, Buf
        from .driver import clamp
        p, c = self.p, self.lib.c
        sa, ka = self.sm.put(sm), self.pk.put(pk)
        mb = Buf(max(len(sm), p.sig_bytes))
        mlen = U64(0xBADBADBADBAD)
        self.n += 1
        if self.core:
            r = c.hx_core_open(p.ptr, p.mt, mb.addr, C.byref(mlen), sa, len(sm), ka)
        else:
            r = c.hx_open(p.mt, mb.addr, C.byref(mlen), sa, len(sm), ka)
        M = sm[p.sig_bytes:]
        self.emit({"ev": {"op": "open", "what": what, "t": self.triple(pk, sm), "ret": r, "mlen": clamp(mlen.value),
                          "mem": mb.intact() and C.string_at(sa, len(sm)) == sm and C.string_at(ka, len(pk)) == pk,
                          "msg": mb.get(0, len(M)) == M, "siglen": p.sig_bytes, "slen": len(sm)}})
        return r


def run_open(lib, job, emit):
    """Given signed messages made from the definition: items [{pk, sm}] in hex."""
    from .driver import get_params
    p = get_params(lib, job["params"])
    emit({"hdr": {"id": job["id"]}})
    its = [(bytes.fromhex(it["pk"]), bytes.fromhex(it["sm"])) for it in job["items"]]
    o = Opener(lib, p, job.get("core"), emit, 2 * max(len(s) for _, s in its) + 4096)
    for pk, sm in its:
        if not o.core:
            pk = p.oid.to_bytes(4, "big") + pk
        o.made(pk, sm)
        o.open("as made", pk, sm)
        if job.get("tamper"):
            tamper(o, pk, [sm], random.Random(job["seed"]), job["tamper"], [])


def components(p):
    """(kind, layer, position, offset, length) of everything a signature consists of."""
    o = p.index_bytes
    out = [("idx", 0, 0, 0, o), ("R", 0, 0, o, p.n)]
    o += p.n
    for l in range(p.d):
        out.append(("layer", l, 0, o, p.wots_sig_bytes + p.tree_height * p.n))
        out.append(("wots", l, 0, o, p.wots_sig_bytes))
        for c in range(p.wots_len):
            out.append(("node", l, c, o, p.n))
            o += p.n
        out.append(("auth", l, 0, o, p.tree_height * p.n))
        for h in range(p.tree_height):
            out.append(("node", l, p.wots_len + h, o, p.n))
            o += p.n
    assert o == p.sig_bytes
    return out


def flip(b, bit):
    b = bytearray(b)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)


def sample(rnd, n, k):
    return range(n) if k is None or k >= n else sorted(rnd.sample(range(n), k))


def tamper(o, pk, sms, rnd, t, foreign):
    """The manipulations of Verifier, on bytes.  sms: signed messages of the one
    key pk; foreign: [(pk, [sm])] of other keys; t: how much of each."""
    p = o.p
    S = p.sig_bytes
    koff = 0 if o.core else 4
    sm = sms[0]
    g = lambda name: t.get(name, 0)

    # single bits: all of them, or some in every component
    if g("flips") == "all":
        for b in range(8 * len(sm)):
            o.open("bit %d" % b, pk, flip(sm, b))
    elif g("flips"):
        for kind, l, c, off, ln in components(p):
            if kind in ("idx", "R", "node"):
                if kind == "node" and g("nodes") and rnd.random() > g("nodes"):
                    continue
                for b in sample(rnd, 8 * ln, None if kind == "idx" else g("flips")):
                    o.open("bit %d of %s %d.%d" % (b, kind, l, c), pk, flip(sm, 8 * off + b))
    for b in sample(rnd, 8 * (len(sm) - S), g("msg")):
        o.open("message bit %d" % b, pk, flip(sm, 8 * S + b))
    if len(sm) > S and g("msg"):
        for b in {0, 8 * (len(sm) - S) - 1, 4 * (len(sm) - S)}:
            o.open("message bit %d" % b, pk, flip(sm, 8 * S + b))
    # public key
    for b in sample(rnd, 8 * (len(pk) - koff), g("pk")):
        o.open("public key bit %d" % b, flip(pk, 8 * koff + b), sm)
    for other in t.get("oids", ()):
        o.open("identifier %d" % other, other.to_bytes(4, "big") + pk[4:], sm)
    for fpk, fsms in foreign:
        o.open("foreign key", fpk, sm)
        n = p.n
        o.open("root of foreign key", pk[:koff] + fpk[koff:koff + n] + pk[koff + n:], sm)
        o.open("seed of foreign key", pk[:koff + n] + fpk[koff + n:], sm)
        for s in fsms:
            o.open("foreign signature", pk, s)
            if not t.get("nomix"):
                o.open("foreign signature, own message", pk, s[:S] + sm[S:])
    # index values
    if g("index") == "all":
        for v in range(1 << min(16, 8 * p.index_bytes)):
            o.open("index %d" % v, pk, v.to_bytes(p.index_bytes, "big") + sm[p.index_bytes:])
    elif g("index"):
        for _ in range(g("index")):
            o.open("index", pk, rnd.randbytes(p.index_bytes) + sm[p.index_bytes:])
    # components of other signatures, other positions, and constants
    comps = components(p)
    bylen = {}
    for c in comps:
        bylen.setdefault((c[0], c[4]), []).append(c)
    pool = [s for s in sms if len(s) >= S] + [s for _, f in foreign for s in f]
    todo = []
    for (kind, ln), cs in bylen.items():
        for a in cs:
            off = a[3]
            for val in (bytes(ln), b"\xff" * ln):
                todo.append((kind, a, val))
            for s in pool:
                todo.append((kind, a, s[off:off + ln]))
                for b in rnd.sample(cs, min(len(cs), g("swaps") or 0)):
                    todo.append((kind, a, s[b[3]:b[3] + ln]))
    k = g("components")
    if k:
        pick = [x for x in todo if x[0] not in ("node",)]
        nodes = [x for x in todo if x[0] == "node"]
        pick += nodes if k == "all" else rnd.sample(nodes, min(len(nodes), k))
        for kind, a, val in pick:
            o.open("%s %d.%d replaced" % (kind, a[1], a[2]), pk, sm[:a[3]] + val + sm[a[3] + a[4]:])
    # two components exchanged, neighbours in particular
    for _ in range(g("exchange")):
        cs = rnd.choice([c for c in bylen.values() if len(c) > 1] or [[comps[0]]])
        if len(cs) < 2:
            break
        i = rnd.randrange(len(cs) - 1)
        a, b = cs[i], cs[i + 1 if rnd.random() < .6 else rnd.randrange(len(cs))]
        x = bytearray(sm)
        x[a[3]:a[3] + a[4]], x[b[3]:b[3] + b[4]] = sm[b[3]:b[3] + b[4]], sm[a[3]:a[3] + a[4]]
        o.open("%s %d.%d and %d.%d exchanged" % (a[0], a[1], a[2], b[1], b[2]), pk, bytes(x))
    # several bits at once
    for _ in range(g("multi")):
        x = sm
        for _ in range(rnd.choice((2, 2, 3, 8))):
            x = flip(x, rnd.randrange(8 * len(sm)))
        o.open("several bits", pk, x)
    # lengths
    if g("lengths"):
        ls = range(len(sm)) if g("lengths") == "all" else sorted(
            set(x for x in (0, 1, 3, 4, 5, p.index_bytes, p.index_bytes + p.n, S - p.n, S - 2, S - 1, S, S + 1, len(sm) - 1) if 0 <= x < len(sm))
            | set(rnd.sample(range(len(sm)), min(len(sm), g("lengths")))))
        for n in ls:
            o.open("cut to %d" % n, pk, sm[:n])
        for ext in (b"\0", b"\1", bytes(rnd.randrange(1, 9)), rnd.randbytes(p.n), rnd.randbytes(64), sm):
            o.open("extended by %d" % len(ext), pk, sm + ext)
            o.open("signature and %d bytes" % len(ext), pk, sm[:S] + ext)
        o.open("message in front", pk, sm[S:] + sm[:S] + b"x")
        o.open("shifted by one", pk, b"\0" + sm)
        o.open("without first byte", pk, sm[1:])
    for _ in range(g("random")):
        o.open("random bytes", pk, rnd.randbytes(S + rnd.randrange(40)))
        o.open("random signature", pk, rnd.randbytes(S) + sm[S:])
    o.open("as made", pk, sm)


def run_tamper(lib, job, emit):
    """A key of the library's own, a few signatures, and everything that can be done to them."""
    from .driver import Key, message, get_params
    p = get_params(lib, job["params"])
    rnd = random.Random(job["seed"])
    emit({"hdr": {"id": job["id"]}})
    drop = lambda o: None

    def key(seed):
        k = Key(lib, p, seed, dict(job, start=None), drop)
        out = []
        for i, st in enumerate(job["starts"]):
            if st is not None:
                k.sk.set(bytes(st), k.off)
            m = message(rnd, job["lens"], i)
            r, sl, sm, mb = k.call_sign(k.sk, m)
            out.append(sm.get())
        return k.pk, out

    seed = job["seed"]
    if job.get("zeros") is not None:     # a key whose root has a zero byte there
        for seed in range(job["seed"], job["seed"] + 6000):
            k = Key(lib, p, seed, dict(job, start=None), drop)
            if k.pk[k.off + job["zeros"]] == 0:
                break
    pk, sms = key(seed)
    others = [key(seed + 77777 + i) for i in range(job.get("foreign", 1))]
    o = Opener(lib, p, job.get("core"), emit, 2 * max(len(s) for s in sms) + 4096)
    for k, ss in [(pk, sms)] + others:
        for s in ss:
            o.made(k, s)
            o.open("as made", k, s)
    for i in range(len(sms)):
        tamper(o, pk, sms[i:] + sms[:i], rnd, job["tamper"] if i == 0 else job.get("rest", job["tamper"]), others)
    if job.get("claims"):
        # signatures made for a root that the key does not have, checked under it
        k = Key(lib, p, seed, dict(job, start=None), drop)
        at = k.off + p.index_bytes + 2 * p.n
        claimed = [flip(pk[k.off:k.off + p.n], b) for b in sample(rnd, 8 * p.n, job["claims"])]
        claimed += [flip(pk[k.off:k.off + p.n], 8 * b + rnd.randrange(8)) for b in range(p.n)]
        claimed += [x[0][k.off:k.off + p.n] for x in others] + [bytes(p.n), b"\xff" * p.n]
        for root in claimed:
            k2 = Buf(k.sk.size, k.sk.get())
            k2.set(root, at)
            m = message(rnd, [32], 0)
            r, sl, sm, mb = k.call_sign(k2, m)
            if r == 0:
                o.open("claimed root", pk[:k.off] + root + pk[k.off + p.n:], sm.get())


def run_huge(lib, job, emit):
    """A message of more than 4 GiB."""
    import ctypes as C
    from .driver import Key, get_params, clamp
    from .xlib import Pages, U64
    p = get_params(lib, job["params"])
    S, L = p.sig_bytes, job["mlen"]
    emit({"hdr": {"id": job["id"], "siglen": S}})
    k = Key(lib, p, job["seed"], dict(job), lambda o: None)
    m, sm, out = Pages(L), Pages(S + L), Pages(S + L)
    am, asm, ao = m.end - L, sm.end - S - L, out.end - S - L
    C.memmove(am, b"begin", 5)
    C.memmove(m.end - 3, b"end", 3)
    sl = U64(0)
    r = lib.c.hx_core_sign(p.ptr, p.mt, k.sk.addr, asm, C.byref(sl), am, L)
    memcmp = C.CDLL(None).memcmp
    memcmp.argtypes = [C.c_void_p, C.c_void_p, C.c_size_t]
    emit({"ev": {"op": "made", "t": [1, 1, 1]}})
    same = memcmp(am, asm + S, L) == 0
    m.free()

    def opn(what, t, addr, n):
        ml = U64(0xBADBADBADBAD)
        r = lib.c.hx_core_open(p.ptr, p.mt, ao, C.byref(ml), addr, n, k.pk)
        # lengths modulo 2^31 are what TLC can count; the multiple is checked here
        want = n - S
        fits = ml.value in (0, want)
        emit({"ev": {"op": "open", "what": what, "t": t, "ret": r, "mem": fits and same and sl.value == S + L,
                     "mlen": ml.value % (1 << 31), "slen": S + want % (1 << 31), "siglen": S,
                     "msg": memcmp(ao, addr + S, want) == 0}})
    opn("as made", [1, 1, 1], asm, S + L)
    for what, at in job["flips"]:
        at = at if at >= 0 else S + L + at
        b = C.string_at(asm + at, 1)[0]
        C.memset(asm + at, b ^ 1, 1)
        opn(what, [1, 1, 2], asm, S + L)
        C.memset(asm + at, b, 1)
    for what, cut in job["cuts"]:
        opn(what, [1, 1, 2], asm, S + L - cut)


def run_pair(lib, job, emit):
    """The state-keeping signer (lib) and the recomputing one (job.lib2) with the same key.
    job: params, seed, count | "all", every (let the second sign at every so-manieth index,
    "own": with a key of its own from the same random bytes), again, jump,
    plan: [i, n]: before the i-th call the first signs n times in one go."""
    from .driver import Key, message, get_params, Interner, clamp
    from .xlib import Lib
    lib2 = Lib(job["lib2"])
    p, p2 = get_params(lib, job["params"]), get_params(lib2, job["params"])
    rnd = random.Random(job.get("mseed", job["seed"]))
    drop = lambda o: None
    a = Key(lib, p, job["seed"], dict(job, start=None), drop)
    off, ib, n = a.off, p.index_bytes, p.n
    assert (ib, n, p.sig_bytes) == (p2.index_bytes, p2.n, p2.sig_bytes)
    start = job.get("start") or [0] * ib
    emit({"hdr": {"id": job["id"], "h": p.full_height, "d": p.d, "th": p.tree_height, "start": list(start)}})
    I, W, A, RR, M = Interner(), Interner(), Interner(), Interner(), Interner()
    regular = lambda sk: sk.get(0, off + ib + 4 * n)
    own = job.get("own", True)
    if own:
        b = Key(lib2, p2, job["seed"], dict(job, start=None), drop)
        emit({"ev": {"op": "gen", "ret": [a.genret, b.genret], "pk": [I(a.pk), I(b.pk)],
                     "fields": [I(regular(a.sk)), I(regular(b.sk))]}})
    else:
        b = Key(lib2, p2, job["seed"], dict(job, start=None, fabricate=True), drop)
        b.pk, b.skseed, b.skprf = a.pk, a.skseed, a.skprf
        b.sk.set(regular(a.sk))
        b.const = a.const
    a.sk.set(bytes(start), off)
    b.sk.set(bytes(start), off)
    if job.get("jump") is not None:
        a.sk.set(bytes(job["jump"]), off)
        b.sk.set(bytes(job["jump"]), off)
        emit({"ev": {"op": "jump", "to": list(job["jump"])}})

    def split(sm):
        o = ib
        rid = RR(sm[o:o + n])
        o += n
        w, au = [], []
        for _ in range(p.d):
            w.append(W(sm[o:o + p.wots_sig_bytes]))
            o += p.wots_sig_bytes
            au.append(A(sm[o:o + p.tree_height * n]))
            o += p.tree_height * n
        return rid, w, au

    def wiped(key):
        return key.constant(key.sk) != key.const and key.gone()

    count = job["count"]
    if count == "all":
        cap = 2 ** p.full_height
        count = (cap - 1 if p.full_height == 8 * ib else cap) + 2
    every, again = job.get("every", 1), job.get("again", 0)
    at = set(job.get("at", ()))
    plan = dict(map(tuple, job.get("plan", ())))
    for i in range(count):
        if i in plan:
            sm, mo = Buf(p.sig_bytes + 8), Buf(p.sig_bytes + 8)
            ok = lib.c.hx_core_many(p.ptr, p.mt, a.sk.addr + off, a.pk[off:], sm.addr, mo.addr, plan[i], 0, None)
            emit({"ev": {"op": "many", "n": plan[i], "ok": ok, "ia": list(a.sk.get(off, ib))}})
        m = message(rnd, job.get("lens", [32]), i)
        if (at and i not in at) or (not at and i % every):
            r, sl, sm, _ = a.call_sign(a.sk, m)
            emit({"ev": {"op": "alone", "ret": r, "ia": list(a.sk.get(off, ib))}})
            continue
        if every > 1 or at or plan or not own:
            b.sk.set(regular(a.sk))
        before = (a.sk.get(), b.sk.get())
        r1, l1, s1, _ = a.call_sign(a.sk, m)
        r2, l2, s2, _ = b.call_sign(b.sk, m)
        ev = {"op": "pair", "i": list(before[0][off:off + ib]), "ret": [r1, r2], "m": M(m),
              "ia": [list(a.sk.get(off, ib)), list(b.sk.get(off, ib))], "wiped": [wiped(a), wiped(b)]}
        if r1 == 0 and r2 == 0:
            x, y = s1.get(), s2.get()
            ev["slen"] = [clamp(l1), clamp(l2)]
            ev["s"] = [I(x), I(y)]
            if job.get("jump") is not None:
                (r1, w1, a1), (r2, w2, a2) = split(x), split(y)
                ev["rid"], ev["w"], ev["a"] = [r1, r2], [w1, w2], [a1, a2]
        emit({"ev": ev})
        if again and i % again == 0 and r1 == 0 and r2 == 0 and job.get("jump") is None:
            for mm in (m, m + b"x", m[:-1], m):
                for key, old in ((a, before[0]), (b, before[1])):
                    sk = Buf(len(old), old)
                    r, sl, sm, _ = key.call_sign(sk, mm)
                    emit({"ev": {"op": "again", "ret": r, "m": M(mm), "s": I(sm.get())}})


def func_name(lib, code):
    return {lib.c.hx_func_code(i): FUNCS[i] for i in range(3)}.get(code, "?")


def fields_of(lib, p):
    f = p.dump()
    f["func"] = func_name(lib, f["func"])
    return {k: (v if isinstance(v, str) or v < 2 ** 31 else -1) for k, v in f.items()}


def halves(oid):
    return {"hi": oid >> 16, "lo": oid & 0xffff}


def run_names(lib, job, emit):
    """Names and identifiers."""
    import ctypes as C
    emit({"hdr": {"id": job["id"]}})
    rec = job["recomputing"]
    for mt, s in job.get("names", ()):
        r, oid = lib.str_to_oid(mt, s)
        emit({"ev": dict(halves(oid), kind="name", mt=bool(mt), s=s, ret=r)})
    for mt, oid in job.get("oids", ()):
        p = lib.oid_params(mt, oid)
        ev = dict(halves(oid), kind="oid", mt=bool(mt), ret=0 if p else -1, recomputing=rec)
        if p:
            ev["f"] = fields_of(lib, p)
        emit({"ev": ev})
    for func, n, w, h, d in job.get("custom", ()):
        p = lib.custom(func, n, w, h, d)
        ev = dict(kind="custom", func=FUNCS[func], n=n, w=w, h=h, d=d, ret=0 if p else -1, recomputing=rec)
        if p:
            ev["f"] = fields_of(lib, p)
        emit({"ev": ev})
    for mt, lo, cnt in job.get("scan", ()):
        out = (C.c_uint32 * 4096)()
        k = lib.c.hx_scan(mt, lo, cnt, out, 4096)
        emit({"ev": {"kind": "scan", "mt": bool(mt), "from": lo >> 16, "count": k,
                     "accepted": [[x >> 16, x & 0xffff] for x in out[:min(k, 4096)]]}})


def run_oidapi(lib, job, emit):
    """The public functions with every identifier given; what they do is compared with
    the core functions under that identifier's parameters."""
    import ctypes as C
    from .xlib import U64
    from .driver import clamp
    emit({"hdr": {"id": job["id"]}})
    rnd = random.Random(job["seed"])
    for mt, oid, calls in job["items"]:
        p = lib.oid_params(mt, oid)
        ob = oid.to_bytes(4, "big")
        base = dict(halves(oid), mt=bool(mt))
        if "keypair" in calls:
            pk, sk = Buf(4 + (p.pk_bytes if p else 200)), Buf(4 + (p.sk_bytes if p else 20000))
            before = (pk.get(), sk.get())
            seed = rnd.getrandbits(30)
            r = lib.keypair(mt, oid, pk, sk, seed)
            ev = dict(base, kind="keypair", ret=r, changed=(pk.get(), sk.get()) != before or not pk.intact() or not sk.intact())
            if p:
                r2, pk2, sk2 = lib.core_keypair(p, seed)
                ib = p.index_bytes
                ev.update(pkoid=list(pk.get(0, 4)), skoid=list(sk.get(0, 4)),
                          same=r2 == r and pk.get(4) == pk2.get() and sk.get(4, ib + 4 * p.n) == sk2.get(0, ib + 4 * p.n)
                          and pk.intact() and sk.intact())
            emit({"ev": ev})
        if "sign" in calls:
            S = p.sig_bytes if p else 40000
            n = p.sk_bytes if p else 30000
            m = rnd.randbytes(rnd.randrange(80))
            if p:
                sk = Buf(4 + n, fill=0)
                reg = p.index_bytes + 4 * p.n
                sk.set(ob + bytes(p.index_bytes) + rnd.randbytes(reg - p.index_bytes))
            else:
                sk = Buf(4 + n, ob + rnd.randbytes(n))
            sk0 = sk.get()
            sm, mb, sl = Buf(S + len(m)), Buf(len(m), m), U64(0xABCDE)
            sm0 = sm.get()
            r = lib.c.hx_sign(mt, sk.addr, sm.addr, C.byref(sl), mb.addr, len(m))
            ev = dict(base, kind="sign", ret=r,
                      changed=sk.get() != sk0 or sm.get() != sm0 or sl.value != 0xABCDE or mb.get() != m or not sm.intact() or not sk.intact())
            if p:
                sk2 = Buf(n, sk0[4:])
                r2, l2, sm2, _ = lib.core_sign(p, sk2, m)
                ev["same"] = (r == r2 and sl.value == l2 and sm.get() == sm2.get() and sk.get() == ob + sk2.get()
                              and sm.intact() and sk.intact())
            emit({"ev": ev})
        if "open" in calls:
            S = p.sig_bytes if p else 3000
            pk = ob + rnd.randbytes(2 * p.n if p else 128)
            for ln in (S + 20, S, max(0, S - 1), 0):
                x = rnd.randbytes(ln)
                smb, pkb, mb, ml = Buf(ln, x), Buf(len(pk), pk), Buf(max(S, ln)), U64(0xABCDE)
                m0 = mb.get()
                r = lib.c.hx_open(mt, mb.addr, C.byref(ml), smb.addr, ln, pkb.addr)
                ev = dict(base, kind="open", ret=r,
                          changed=mb.get() != m0 or smb.get() != x or pkb.get() != pk or not mb.intact())
                if p:
                    r2, l2, mb2, ok = lib.core_open(p, x, pk[4:])
                    ev["same"] = r == r2 and ml.value == l2 and mb.get() == mb2.get() and ok and mb.intact()
                emit({"ev": ev})


def wots_values(n, w, rnd, how):
    """Values worth signing: every digit position, every checksum, random ones."""
    import math
    lw = {4: 2, 16: 4, 256: 8}[w]
    l1 = 8 * n // lw

    def pack(d):
        v = 0
        for x in d:
            v = v * w + x
        return v.to_bytes(n, "big")

    out = [pack([j] * l1) for j in (range(w) if w < 256 or how.get("all") else sorted({0, 1, 127, 128, 254, 255} | set(rnd.sample(range(256), 10))))]
    top = l1 * (w - 1)
    cs = range(top + 1) if top <= how["sums"] else sorted(
        {0, 1, 2, top, top - 1} | {x for m in range(0, top + 1, w) for x in (m - 1, m, m + 1) if 0 <= x <= top and rnd.random() < how["sums"] / (6 * top / w)}
        | {rnd.randrange(top + 1) for _ in range(how["sums"] // 2)})
    for c in cs:
        d = [w - 1] * l1
        left, order = c, list(range(l1))
        rnd.shuffle(order)
        for i in order:
            t = min(left, w - 1 if rnd.random() < .7 else rnd.randrange(w))
            d[i] -= t
            left -= t
        for i in order:
            t = min(left, d[i])
            d[i] -= t
            left -= t
        out.append(pack(d))
    # one digit away from each other
    base = [rnd.randrange(w) for _ in range(l1)]
    for _ in range(how.get("near", 40)):
        d = list(base)
        i = rnd.randrange(l1)
        d[i] = max(0, min(w - 1, d[i] + rnd.choice((-1, 1))))
        out.append(pack(d))
    out += [rnd.randbytes(n) for _ in range(how.get("random", 60))]
    return out


def run_wots(lib, job, emit):
    """One-time key pairs.  job: params [func n w h d k], seed, how, oracle: number of
    signatures to record in full, want."""
    import ctypes as C
    from .driver import get_params, Interner
    p = get_params(lib, job["params"])
    func, n, w = job["params"][:3]
    rnd = random.Random(job["seed"])
    sk, seed = rnd.randbytes(n), rnd.randbytes(n)
    layer, tree, leaf = rnd.randrange(12), rnd.getrandbits(60), rnd.randrange(1 << 20)
    skb, seedb = Buf(n, sk), Buf(n, seed)

    def addr():
        return (C.c_uint32 * 8)(layer, tree >> 32, tree & 0xffffffff, 0, leaf, rnd.getrandbits(20), rnd.getrandbits(8), rnd.getrandbits(2))

    L = p.wots_sig_bytes
    pk = Buf(L)
    lib.c.hx_wots_pkgen(p.ptr, pk.addr, skb.addr, seedb.addr, addr())
    pkv = pk.get()
    ids = [{pkv[c * n:c * n + n]: 1} for c in range(p.wots_len)]
    if job.get("oracle"):
        emit({"hdr": {"id": job["id"]}})
    else:
        emit({"hdr": {"id": job["id"], "n": n, "w": w}})
    vals = [bytes.fromhex(v) for v in job["values"]] if "values" in job else wots_values(n, w, rnd, job["how"])
    for v in vals:
        vb, sig, back = Buf(n, v), Buf(L), Buf(L)
        lib.c.hx_wots_sign(p.ptr, sig.addr, vb.addr, skb.addr, seedb.addr, addr())
        s = sig.get()
        if job.get("oracle"):
            emit({"ev": dict(spec_params(job["want"], None), kind="wots1", v=v.hex(), sig=s.hex(), pk=pkv.hex(), skseed=sk.hex(),
                             seed=seed.hex(), layer=layer, tree=tree.to_bytes(8, "big").hex(), leaf=leaf)})
            continue
        lib.c.hx_wots_pk_from_sig(p.ptr, back.addr, sig.addr, vb.addr, seedb.addr, addr())
        ok = back.get() == pkv
        x = bytearray(v)
        if rnd.random() < .5:
            x[rnd.randrange(n)] ^= 1 << rnd.randrange(8)
        else:
            x[rnd.randrange(n)] = rnd.choice([y for y in range(256) if y != x[0]])
        other = True
        if bytes(x) != v:
            b2, v2 = Buf(L), Buf(n, bytes(x))
            lib.c.hx_wots_pk_from_sig(p.ptr, b2.addr, sig.addr, v2.addr, seedb.addr, addr())
            other = b2.get() != pkv
        emit({"ev": {"op": "wots", "v": list(v), "ids": [ids[c].setdefault(s[c * n:c * n + n], len(ids[c]) + 1) for c in range(p.wots_len)],
                     "back": ok, "other": other,
                     "mem": sig.intact() and pk.intact() and back.intact() and vb.get() == v and skb.get() == sk and seedb.get() == seed}})


def forked(fn):
    """Result of fn() in a child process; a dead child gives a crash event."""
    import json, os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, b"")
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(fn()).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        return [{"op": "crash", "signal": st & 127}]
    return json.loads(data)


def run_rng(lib, job, emit):
    """Key generation and requests for random bytes on the scripted device."""
    import ctypes as C
    from .driver import get_params
    p = get_params(lib, job["params"]) if "params" in job else None
    core = job.get("core", True)

    def device():
        out = []
        for kind, a, b in lib.rng_log():
            if kind == 1:
                out.append({"op": "open", "r": int(b)})
            elif kind == 2:
                out.append({"op": "read", "asked": int(a) if 0 <= a < 2 ** 31 else -1, "r": int(b)})
            else:
                out.append({"op": "pause"})
        return out

    def genkey(seed, extra=False):
        """One key pair; the device is set up by the caller."""
        n, ib = p.n, p.index_bytes
        if p.oid is None or core:
            off = 0
            pk, sk = Buf(p.pk_bytes), Buf(p.sk_bytes)
            r = lib.c.hx_core_keypair(p.ptr, p.mt, pk.addr, sk.addr)
        else:
            off = 4
            pk, sk = Buf(4 + p.pk_bytes), Buf(4 + p.sk_bytes)
            r = lib.c.hx_keypair(p.mt, pk.addr, sk.addr, p.oid)
        evs = device()
        st = lib.stream(seed, 6 * n + 64)
        f = [sk.get(off + ib + i * n, n) for i in range(4)]
        evs.append({"op": "key", "ret": r, "n": n, "at": [st.find(f[0]), st.find(f[1]), st.find(f[3])],
                    "idx0": sk.get(off, ib) == bytes(ib),
                    "copies": pk.get(off, n) == f[2] and pk.get(off + n, n) == f[3] and pk.intact() and sk.intact()})
        made = pk.get() + sk.get(0, off + ib + 4 * n)
        if extra:
            lib.c.hx_rng_script(1, seed + 1, None, 0, None, 0)
            m = b"hello"
            sm, sl = Buf(p.sig_bytes + len(m)), C.c_ulonglong(0)
            mb = Buf(len(m), m)
            if off:
                r = lib.c.hx_sign(p.mt, sk.addr, sm.addr, C.byref(sl), mb.addr, len(m))
            else:
                r = lib.c.hx_core_sign(p.ptr, p.mt, sk.addr, sm.addr, C.byref(sl), mb.addr, len(m))
            evs += device() + [{"op": "quiet", "what": "sign", "ret": r}]
            lib.c.hx_rng_script(1, seed + 1, None, 0, None, 0)
            ml, ob = C.c_ulonglong(0), Buf(p.sig_bytes + len(m))
            if off:
                r = lib.c.hx_open(p.mt, ob.addr, C.byref(ml), sm.addr, sl.value, pk.addr)
            else:
                r = lib.c.hx_core_open(p.ptr, p.mt, ob.addr, C.byref(ml), sm.addr, sl.value, pk.addr)
            evs += device() + [{"op": "quiet", "what": "open", "ret": r}]
        lib.c.hx_rng_script(0, 0, None, 0, None, 0)
        return evs, made

    rnd = random.Random(job["seed"])
    for i, (opens, reads) in enumerate(job.get("scripts", ())):
        seed = rnd.getrandbits(40)

        def one():
            lib.rng(1, seed, opens, reads)
            return genkey(seed, extra=i % 8 == 0)[0]
        emit({"hdr": {"id": "%s#%d" % (job["id"], i), "isopen": False, "need": 3 * p.n, "script": [opens, reads]}})
        for e in forked(one):
            emit({"ev": e})
    for i, (opens, reads, want) in enumerate(job.get("plain", ())):
        seed = rnd.getrandbits(40)

        def one():
            b = Buf(want)
            lib.rng(1, seed, opens, reads)
            lib.c.hx_randombytes(b.addr, want)
            ev = device()
            lib.rng(0)
            return ev + [{"op": "bytes", "at": 0 if b.get() == lib.stream(seed, want) else -1, "mem": b.intact()}]
        emit({"hdr": {"id": "%s#p%d" % (job["id"], i), "isopen": False, "need": want, "script": [opens, reads]}})
        for e in forked(one):
            emit({"ev": e})
    if job.get("contexts"):
        # the same bytes give the same key whatever happened before; different ones different keys
        emit({"hdr": {"id": job["id"] + "#c", "isopen": True, "need": 0}})
        ids, evs, seen = {}, [], []
        seeds = [rnd.getrandbits(40) for _ in range(4)]
        first = {}
        for rnd_i in range(3):
            for s in seeds:
                lib.rng(1, s)
                k = genkey(s, extra=rnd_i == 1)[1]
                kid = ids.setdefault(k, len(ids) + 1)
                if s in first:
                    emit({"ev": {"op": "same", "a": first[s], "b": kid}})
                first.setdefault(s, kid)
            junk = [Buf(rnd.randrange(100000), fill=rnd.randrange(256)) for _ in range(9)]
            del junk
        emit({"ev": {"op": "different", "ids": [first[s] for s in seeds]}})
    if job.get("real"):
        # the real device: never the same key twice, in this process or in its children
        emit({"hdr": {"id": job["id"] + "#r", "isopen": True, "need": 0}})

        def several():
            out = []
            for _ in range(job["real"]):
                lib.c.hx_rng_script(0, 0, None, 0, None, 0)
                out.append(genkey(0)[1].hex())
            return out
        keys = []
        first = several()
        for k in [first, forked(several), forked(several), several()]:
            keys += k
        d = {}
        emit({"ev": {"op": "different", "ids": [d.setdefault(str(x), len(d) + 1) for x in keys]}})
        n, ib = p.n, p.index_bytes
        o = p.pk_bytes + ib       # (core keys)
        d = {}
        parts = [bytes.fromhex(x)[o + i * n:o + i * n + n] for x in keys for i in (0, 1, 3)] if core else []
        emit({"ev": {"op": "different", "ids": [d.setdefault(x, len(d) + 1) for x in parts]}})


def unwritten(a, fa, b, fb):
    """Intervals of a and b that are still what they were filled with."""
    out, i, n = [], 0, len(a)
    while i < n:
        if a[i] == fa and b[i] == fb:
            j = i
            while j < n and a[j] == fa and b[j] == fb:
                j += 1
            out.append([i, j])
            i = j
        else:
            i += 1
    return out


def run_frame(lib, job, emit):
    """Calls on exactly the memory they are entitled to; everything before and after."""
    import ctypes as C
    from .driver import get_params, clamp
    from .xlib import GBuf
    p = get_params(lib, job["params"])
    core = p.oid is None or job.get("core", False)
    off = 0 if core else 4
    at = job.get("at", "end")
    rnd = random.Random(job["seed"])
    n, ib = p.n, p.index_bytes
    ids = {}

    def num(b):
        return ids.setdefault(bytes(b), len(ids) + 1)

    B = {"pk": GBuf(off + p.pk_bytes, at), "sk": GBuf(off + p.sk_bytes, at), "smlen": GBuf(8, at), "mlen": GBuf(8, at)}

    def resize(nm, size, data=None, fill=0x5C):
        B[nm] = GBuf(size, at, fill)
        if data is not None:
            B[nm].set(data)
    for nm in ("m", "sm", "mout"):
        resize(nm, 0)

    def mem():
        s = B["sk"].get()
        o = off + ib
        parts = {"oid": s[:off], "idx": s[off:o], "skseed": s[o:o + n], "prf": s[o + n:o + 2 * n], "root": s[o + 2 * n:o + 3 * n],
                 "pubseed": s[o + 3 * n:o + 4 * n], "state": s[o + 4 * n:]}
        for nm in ("pk", "m", "sm", "smlen", "mout", "mlen"):
            parts[nm] = B[nm].get()
        parts["around"] = b"".join(B[nm].around() for nm in sorted(B))
        return {a: num(b) for a, b in parts.items()}

    def load(reload=False):
        emit({"ev": {"op": "load", "reload": reload, "mem": mem()}})

    def lock(*nms):
        for nm in nms:
            B[nm].readonly()

    def unlock(*nms):
        for nm in nms:
            B[nm].readonly(False)

    def keygen(seed):
        got = []
        for f in (0x5C, 0xA3):
            B["pk"].fill(f), B["sk"].fill(f)
            if f == 0x5C:
                keep = (B["pk"].get(), B["sk"].get())
            lib.rng(1, seed)
            lock("m", "sm", "smlen", "mout", "mlen")
            if core:
                r = lib.c.hx_core_keypair(p.ptr, p.mt, B["pk"].addr, B["sk"].addr)
            else:
                r = lib.c.hx_keypair(p.mt, B["pk"].addr, B["sk"].addr, p.oid)
            unlock("m", "sm", "smlen", "mout", "mlen")
            lib.rng(0)
            got += [B["pk"].get(), B["sk"].get()]
        emit({"ev": {"op": "keygen", "ret": r, "mem": mem(),
                     "unw": {"pk": unwritten(got[0], 0x5C, got[2], 0xA3), "sk": unwritten(got[1], 0x5C, got[3], 0xA3)}}})
        return r

    def sign(m):
        resize("m", len(m), m)
        resize("sm", p.sig_bytes + len(m))
        B["smlen"].set(b"\x77" * 8)
        load()
        before = B["sk"].get()
        outs = []
        for f in (0x5C, 0xA3):
            B["sk"].set(before)
            B["sm"].fill(f)
            lock("m", "pk", "mout", "mlen")
            a = (B["sk"].addr, B["sm"].addr, C.cast(B["smlen"].addr, C.POINTER(C.c_ulonglong)), B["m"].addr, len(m))
            r = lib.c.hx_core_sign(p.ptr, p.mt, *a) if core else lib.c.hx_sign(p.mt, *a)
            unlock("m", "pk", "mout", "mlen")
            outs.append(B["sm"].get())
        sl = int.from_bytes(B["smlen"].get(), "little")
        after = B["sk"].get()
        # wiping the key is allowed when it has been used up, before or by this call
        idx = int.from_bytes(before[off:off + ib], "big")
        wipe = idx + 1 >= 2 ** p.full_height - (1 if p.full_height == 8 * ib else 0)
        emit({"ev": {"op": "sign", "ret": r, "mem": mem(), "mlen": len(m), "slen": clamp(sl), "wipe": wipe,
                     "unw": {"sm": unwritten(outs[0], 0x5C, outs[1], 0xA3)}}})
        return r, outs[1]

    def opn(sm, good, pk=None):
        resize("sm", len(sm), sm)
        B["mlen"].set(b"\x77" * 8)
        resize("mout", len(sm))
        load()
        outs = []
        for f in (0x5C, 0xA3):
            B["mout"].fill(f)
            lock("sm", "pk", "sk", "m", "smlen")
            a = (B["mout"].addr, C.cast(B["mlen"].addr, C.POINTER(C.c_ulonglong)), B["sm"].addr, len(sm), B["pk"].addr)
            r = lib.c.hx_core_open(p.ptr, p.mt, *a) if core else lib.c.hx_open(p.mt, *a)
            unlock("sm", "pk", "sk", "m", "smlen")
            outs.append(B["mout"].get())
        ml = int.from_bytes(B["mlen"].get(), "little")
        emit({"ev": {"op": "open", "ret": r, "good": good, "mem": mem(), "mlen": clamp(ml), "slen": len(sm),
                     "unw": {"mout": unwritten(outs[0], 0x5C, outs[1], 0xA3)}}})

    alg = {0: "SHA2", 1: "SHAKE128", 2: "SHAKE256"}
    fn = [i for i in range(3) if lib.c.hx_func_code(i) == p.func]
    emit({"hdr": {"id": job["id"], "mt": bool(p.mt), "func": alg[fn[0]] if fn else "?", "n": n, "w": p.wots_w, "h": p.full_height,
                  "d": p.d, "oid": not core, "pkb": p.pk_bytes, "skb": p.sk_bytes, "sigb": p.sig_bytes, "mem": mem()}})
    keygen(rnd.getrandbits(40))
    if "start" in job:
        B["sk"].set(bytes(job["start"]), off)
        load(True)
    far = "start" in job and any(job["start"])
    lens = job.get("lens", [0, 1, 32])
    for i in range(job["count"]):
        m = rnd.randbytes(lens[i % len(lens)])
        ok, sm = sign(m)
        if i % job.get("stride", 1) == 0 and not (far and job.get("fast")):
            if ok == 0:
                opn(sm, True)
                bad = bytearray(sm)
                bad[rnd.randrange(len(bad))] ^= 1 << rnd.randrange(8)
                opn(bytes(bad), False)
            if i % (8 * job.get("stride", 1)) == 0:
                for c in (0, 1, ib, ib + n, p.sig_bytes - 1, p.sig_bytes, rnd.randrange(p.sig_bytes)):
                    cut = sm[:c]
                    opn(cut, ok == 0 and cut == sm)
    if not core:
        from .xlib import U64
        keep = B["sk"].get(), B["pk"].get()
        for bad in (0, 0xFFFFFFFF, 99, p.oid << 8, p.oid | 0x80000000, p.oid << 24):
            B["sk"].set(bad.to_bytes(4, "big"))
            B["pk"].set(bad.to_bytes(4, "big"))
            resize("m", 20, b"x" * 20)
            resize("sm", p.sig_bytes + 20)
            load(True)
            r = lib.c.hx_sign(p.mt, B["sk"].addr, B["sm"].addr, C.cast(B["smlen"].addr, C.POINTER(C.c_ulonglong)), B["m"].addr, 20)
            emit({"ev": {"op": "unknown", "ret": r, "mem": mem()}})
            resize("mout", p.sig_bytes + 20)
            load(True)
            lock("sm", "pk", "sk", "m", "smlen")
            r = lib.c.hx_open(p.mt, B["mout"].addr, C.cast(B["mlen"].addr, C.POINTER(C.c_ulonglong)), B["sm"].addr, p.sig_bytes + 20, B["pk"].addr)
            unlock("sm", "pk", "sk", "m", "smlen")
            emit({"ev": {"op": "unknown", "ret": r, "mem": mem()}})
            lib.rng(1, 5)
            r = lib.c.hx_keypair(p.mt, B["pk"].addr, B["sk"].addr, bad)
            lib.rng(0)
            emit({"ev": {"op": "unknown", "ret": r, "mem": mem()}})


def run_sessions(lib, job, emit):
    """A session with several keys.  job: keys [params, seed], limit, nb, ns, ops | nest | threads."""
    import ctypes as C, hashlib, json, os, subprocess, sys, threading
    from .xlib import Buf
    from .xworker import Ops, message
    O = Ops(lib)
    keys = job["keys"]
    nk = len(keys)
    spec = {i + 1: keys[i][0] for i in range(nk)}

    class Other:
        """Another process."""

        def __init__(self, **env):
            self.p = subprocess.Popen([sys.executable, "-m", "vf.xworker", lib.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      env=dict(os.environ, **env), text=True)

        def __call__(self, **q):
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
            return json.loads(l) if l else {"ret": -999, "sm": "", "sk": q.get("sk", ""), "pk": "", "sigs": []}

        def end(self):
            self.p.stdin.close()
            self.p.wait()
    num = {}

    def sid(b):
        return num.setdefault(hashlib.sha256(b).digest(), len(num) + 1)
    real = {}
    pre = []
    if job.get("genthreads"):
        # several threads generate, from the real device
        res = {}

        def g(i):
            res[i] = O.gen(spec[i])
        for i in spec:
            O.p(spec[i])
        ts = [threading.Thread(target=g, args=(i,)) for i in spec]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for i, (r, pk, sk) in res.items():
            p = O.p(spec[i])
            o = O.off(p) + p.index_bytes
            s = sk.get()
            n = p.n
            real[i] = (s[o:o + 2 * n] + s[o + 3 * n:o + 4 * n], r, pk, sk)
    solo, pks = {}, {}
    for i in spec:
        w = Other(MALLOC_PERTURB_="33")
        q = dict(op="solo", k=i, params=spec[i], n=job["limit"])
        a = w(given=real[i][0].hex(), **q) if i in real else w(seed=keys[i - 1][1], **q)
        w.end()
        pks[i], solo[i] = bytes.fromhex(a["pk"]), [bytes.fromhex(x) for x in a["sigs"]]
    caps = [2 ** O.p(spec[i]).full_height if O.p(spec[i]).full_height < 20 else 10 ** 6 for i in spec]
    nb, ns = job["nb"], job["ns"]
    emit({"hdr": {"id": job["id"], "caps": caps, "nb": nb, "ns": ns, "solo": [[sid(x) for x in solo[i]] for i in spec],
                  "pks": [sid(pks[i]) for i in spec]}})
    big = max(O.off(O.p(s)) + O.p(s).sk_bytes for s in spec.values())
    bufs = {b: Buf(big) for b in range(1, nb + 1)}
    has = {}                      # buffer -> key id
    slots, sms = {}, {}
    away = []

    def size(k):
        p = O.p(spec[k])
        return O.off(p) + p.sk_bytes

    def do_sign(b, where="here", evs=None):
        k = has[b]
        sk = bufs[b].get(0, size(k))
        i = O.index(spec[k], sk)
        if where == "moved":
            bufs[b].set(b"\xEE" * size(k))
            bufs[b] = Buf(big)
            bufs[b].set(sk)
        if where == "away":
            if not away:
                away.append(Other(MALLOC_PERTURB_="99"))
            a = away[0](op="sign", params=spec[k], sk=sk.hex(), m=message(k, i).hex())
            bufs[b].set(bytes.fromhex(a["sk"]))
            r, sm = a["ret"], bytes.fromhex(a["sm"])
        else:
            r, sm = O.sign(spec[k], bufs[b].addr, message(k, i))
        j = O.index(spec[k], bufs[b].get(0, size(k)))
        clampi = lambda x: x if x < 2 ** 30 else -1
        cap = caps[k - 1]
        ev = {"op": "sign", "b": b, "ret": r, "before": min(i, cap) if i < 2 ** 60 else cap, "after": min(j, cap), "sig": sid(sm)}
        ev["before"], ev["after"] = int(min(ev["before"], 10 ** 6)), int(min(ev["after"], 10 ** 6))
        if r == 0:
            sms[(k, i)] = sm
        (emit if evs is None else evs.append)({"ev": ev})

    def do_gen(b, k, evs=None):
        if k in real:
            pk, sk = real[k][2], real[k][3].get()
            bufs[b].set(sk)
            r = real[k][1]
        else:
            lib.rng(1, keys[k - 1][1])
            r, pk, _ = O.gen(spec[k], into=bufs[b])
        has[b] = k
        (emit if evs is None else evs.append)({"ev": {"op": "gen", "b": b, "k": k, "ret": r, "pk": sid(pk),
                                                      "at": min(O.index(spec[k], bufs[b].get(0, size(k))), 10 ** 6)}})

    def do_save(b, s):
        slots[s] = (has[b], bufs[b].get(0, size(has[b])))
        emit({"ev": {"op": "save", "b": b, "s": s}})

    def do_load(b, s):
        has[b] = slots[s][0]
        bufs[b].set(b"\x99" * big)
        bufs[b].set(slots[s][1])
        emit({"ev": {"op": "load", "b": b, "s": s}})

    def do_open(g, k, evs=None):
        # the other key's public key, and the family and sizes that it names
        sm = sms[(g["k"], g["i"])]
        r, m = O.open(spec[k], pks[k], sm)
        (emit if evs is None else evs.append)({"ev": {"op": "open", "g": g, "k": k, "ret": r,
                                                      "right": m == (message(g["k"], g["i"]) if r == 0 else b"")}})
    made = []

    def within(at, outer, inner):
        """inner happens at the at-th hash of outer; events in an order that explains them."""
        one, two = [], []
        CB = C.CFUNCTYPE(None)
        fn = CB(lambda: inner(one))
        lib.c.hx_hash_hook(fn, at)
        outer(two)
        lib.c.hx_hash_hook(None, 0)
        if not one:
            inner(one)
        for e in one + two:
            emit(e)

    def threads(acts):
        """acts: lists of functions of an event list; one thread each."""
        evs = [[] for _ in acts]

        def body(i):
            for a in acts[i]:
                a(evs[i])
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(acts))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for l in evs:
            for e in l:
                emit(e)
    rnd = random.Random(job["seed"])
    for o in job.get("ops", ()):
        if o["op"] == "gen":
            do_gen(o["b"], o["k"])
        elif o["op"] == "sign":
            do_sign(o["b"], o["where"])
        elif o["op"] == "save":
            do_save(o["b"], o["s"])
        elif o["op"] == "load":
            do_load(o["b"], o["s"])
        elif o["op"] == "open":
            if (o["g"]["k"], o["g"]["i"]) in sms and all(len(sms[(o["g"]["k"], o["g"]["i"])]) >= 0 for _ in (0,)):
                do_open(o["g"], o["k"])
        elif o["op"] == "threads":
            threads([[lambda ev, b=b: do_sign(b, evs=ev)] * o["n"] for b in o["S"]])
        elif o["op"] == "within":
            a, b = o["a"], o["b"]
            within(rnd.choice((1, rnd.randrange(1, 50), rnd.randrange(1, 1000), rnd.randrange(1, 6000))),
                   lambda ev: do_sign(a, evs=ev), lambda ev: do_sign(b, evs=ev))
    if job.get("nest"):
        # one call of every kind within another of every kind, at (every step-th) hash
        do_gen(1, 1)
        for _ in range(job["nest"]["i1"]):
            do_sign(1)
        do_save(1, 1)
        do_gen(2, 2)
        for _ in range(job["nest"]["i2"] + 1):
            do_sign(2)
        do_save(2, 2)
        do_sign(1)
        g1, g2 = {"k": 1, "i": job["nest"]["i1"]}, {"k": 2, "i": job["nest"]["i2"]}
        kinds = {"sign": lambda b: (lambda ev: do_sign(b, evs=ev)),
                 "gen": lambda b: (lambda ev: do_gen(b, b, evs=ev)),
                 "open": lambda b: (lambda ev: do_open((g1, g2)[b - 1], b, evs=ev))}
        for a in job["nest"]["outer"]:
            lib.c.hx_hash_reset(0, 0)
            do_load(1, 1)
            kinds[a](1)([])
            calls = lib.c.hx_hash_calls()
            step = max(1, calls // job["nest"]["points"])
            for b in job["nest"]["inner"]:
                if "gen" == a == b:
                    continue       # (two generations share the scripted device)
                at = 1 + rnd.randrange(step)
                while at <= calls + 1:
                    do_load(1, 1)
                    do_load(2, 2)
                    within(at, kinds[a](1), kinds[b](2))
                    at += rnd.randrange(1, 2 * step) if step > 1 else 1
    if job.get("threads"):
        for k in spec:
            do_gen(k, k)
        for r in range(job["threads"]):
            threads([[lambda ev, b=b: do_sign(b, evs=ev)] * rnd.randrange(1, 3)
                     + ([lambda ev, b=b: do_open({"k": b, "i": O.index(spec[b], bufs[b].get(0, size(b))) - 1}, b, evs=ev)] if r % 2 else [])
                     for b in spec])
    for w in away:
        w.end()


def run_signtool(lib, job, emit):
    from . import signtool
    signtool.run_signtool(lib, job, emit)


def run_tools(lib, job, emit):
    from . import tools
    tools.run_tools(lib, job, emit)


def run_seedkey(lib, job, emit):
    """Key pairs derived from given seeds (lib), and generated from a device that delivers
    the same bytes (lib and lib2).  job: params, seed, seeds (how many), signs, named, records"""
    import ctypes as C
    from .driver import get_params, Interner
    from .xlib import Lib
    libs = [lib, Lib(job["lib2"])]
    # the set, and others that take seeds of the same length
    sets = [[get_params(l, x) for l in libs] for x in [job["params"]] + job.get("others", [])]
    ps = sets[0]
    p = ps[0]
    n = p.n
    rnd = random.Random(job["seed"])
    S, K, M, G = Interner(), Interner(), Interner(), Interner()
    seeds = [rnd.randbytes(3 * n) for _ in range(max(1, job.get("seeds", 3) - 3))]
    if job.get("seeds", 3) > 3:
        # seeds that differ in one byte or bit of one part, and parts exchanged
        a = bytearray(seeds[0])
        for at in (rnd.randrange(n), n + rnd.randrange(n), 2 * n + rnd.randrange(n)):
            b = bytearray(a)
            b[at] ^= 1 << rnd.randrange(8)
            seeds.append(bytes(b))
        seeds += [seeds[0][n:2 * n] + seeds[0][:n] + seeds[0][2 * n:], bytes(3 * n), b"\xff" * (3 * n)]
    emit({"hdr": {"id": job["id"], "n": n}})

    def key(how, which, seed, fill, x=0):
        """One key pair of set x.  Returns event and the keys."""
        l, q = libs[which], sets[x][which]
        ib = q.index_bytes
        off = 4 if how == "public" else 0
        pk, sk = Buf(off + q.pk_bytes, fill=fill), Buf(off + q.sk_bytes, fill=fill ^ 0x33)
        sb = Buf(3 * n, seed)
        if how == "derive":
            l.rng(1, rnd.getrandbits(40))
            r = l.c.hx_core_seed_keypair(q.ptr, pk.addr, sk.addr, sb.addr)
        else:
            keep = C.create_string_buffer(seed + bytes(64), 3 * n + 64)
            l.c.hx_rng_given(keep, 3 * n)
            r = (l.c.hx_keypair(q.mt, pk.addr, sk.addr, q.oid) if how == "public"
                 else l.c.hx_core_keypair(q.ptr, q.mt, pk.addr, sk.addr))
        took = sum(max(0, b) for kind, a, b in l.rng_log() if kind == 2)
        l.rng(0)
        f = [sk.get(off + ib + i * n, n) for i in range(4)]
        part = [seed[i * n:i * n + n] for i in range(3)]
        parts = [i + 1 if f[j] == part[i] else 0 for i, j in ((0, 0), (1, 1), (2, 3))]
        ev = {"op": "key", "p": x, "how": "derive" if how == "derive" else "generate", "by": "%s%d" % (how, which), "ret": r,
              "s": S(seed), "k": K(pk.get(off, 2 * n) + sk.get(off, ib + 4 * n)), "took": took, "kept": sb.get() == seed,
              "parts": parts, "idx0": sk.get(off, ib) == bytes(ib),
              "copies": pk.get(off, n) == f[2] and pk.get(off + n, n) == f[3],
              "bounds": pk.intact() and sk.intact() and sb.intact()}
        return ev, pk.get(off), sk.get(off)

    def signs(which, how, seed, pk, skb, count, x=0):
        l, q = libs[which], sets[x][which]
        sk = Buf(len(skb), skb)
        out = []
        mr = random.Random(str(seed))
        for i in range(min(count, 2 ** q.full_height - 1)):
            m = mr.randbytes(mr.randrange(60))
            r, sl, sm, _ = l.core_sign(q, sk, m)
            y = sm.get()
            o = libs[1 - which].core_open(sets[x][1 - which], y, pk)
            out.append({"op": "sign", "by": "%s%d" % (how, which), "p": x, "s": S(seed), "i": i, "m": M(m), "ret": r, "sig": G(y),
                        "ok": o[0] == 0 and o[1] == len(m) and o[2].get(0, len(m)) == m and sl == len(y)})
        return out

    ways = [("derive", i) for i in range(2) if libs[i].c.hx_has_seed_keypair()] + [("generate", 0), ("generate", 1)]
    if p.oid is not None:
        ways += [("public", 0), ("public", 1)]
    order = [(w, s, x) for s in seeds for w in ways for x in range(len(sets))]
    for rounds in range(job.get("rounds", 2)):
        rnd.shuffle(order)
        for (how, which), s, x in order:
            if how == "public" and (rounds or x):
                continue
            ev, pk, sk = key(how, which, s, rnd.randrange(256), x)
            emit({"ev": ev})
            if rounds == 0 and job.get("signs"):
                for e in signs(which, how, s, pk, sk, job["signs"], x):
                    emit({"ev": e})
    # the same seed for one set after the other
    for s in seeds:
        w = rnd.choice(ways[:3])
        for x in rnd.sample(range(len(sets)), len(sets)):
            ev, pk, sk = key(w[0] if w[0] != "public" else "generate", w[1], s, 0, x)
            emit({"ev": ev})
    # and in another process
    for s in seeds[:2]:
        for how, which in ways:
            def there():
                e, pk, sk = key(how, which, s, 0)
                e["k"] = (pk[:2 * n] + sk[:p.index_bytes + 4 * n]).hex()
                return [e]
            for e in forked(there):
                if "k" in e:
                    e["k"] = K(bytes.fromhex(e["k"]))
                emit({"ev": e})


def run_places(lib, job, emit):
    """The hash calls of a key's life, by address.  job: params, seed, count, jumps, fabricate, verify,
    only_keys (leave out everything but the secrets of one-time keys and the signatures),
    sample: [mask, value] (only tree nodes whose index has the value in these bits),
    plan: [n, every] (n signatures in one go, so many of them verified; then nothing else is done)"""
    import ctypes as C
    import struct
    from .driver import Key, get_params, message
    p = get_params(lib, job["params"])
    n, pad = p.n, p.padding_len
    rnd = random.Random(job["seed"])
    c = lib.c
    keyof, prf = {}, {}        # output of a keyed address -> the address; and back
    secrets, uses, ids = {}, {}, {}
    odd = [0]
    fab = bool(job.get("fabricate"))

    def take():
        ln = C.c_size_t()
        a = c.hx_hash_log_get(C.byref(ln))
        b = C.string_at(a, ln.value) if ln.value else b""
        o, zero = 0, bytes(pad - 1)
        while o < len(b):
            full, k = struct.unpack_from("<II", b, o)
            x, out = b[o + 8:o + 8 + k], b[o + 8 + k:o + 8 + k + n]
            o += 72 + k
            yield full, x, out

    pend = []

    def xor(a, b):
        return (int.from_bytes(a, "big") ^ int.from_bytes(b, "big")).to_bytes(len(a), "big")

    def gather(pub, skseed, skprf):
        zero = bytes(pad - 1)
        for full, x, out in pend:
            dom = x[pad - 1] if len(x) > pad and x[:pad - 1] == zero else -1
            key, m = x[pad:pad + n], x[pad + n:]
            if dom == 3 and len(m) == 32 and full == len(x):
                if key == pub:
                    keyof[out] = m
                    prf[m] = out
                elif key != skprf:
                    odd[0] += 1
            elif dom == 4 and full == len(x) and key == skseed and m[:n] == pub and len(m) == n + 32:
                secrets.setdefault(m[n:n + 20], {})[m[n + 20:]] = out
            elif dom in (0, 1) and full == len(x) and len(m) == n * (dom + 1):
                a = keyof.get(key)
                if a is None or a[28:] != bytes(4):
                    odd[0] += 1
                    continue
                if fab and a[15] == 2 and not job.get("inner"):
                    continue                 # (made-up tree nodes)
                mask = b"".join(prf.get(a[:28] + bytes([0, 0, 0, j]), b"") for j in range(1, dom + 2))
                if len(mask) != len(m):
                    odd[0] += 1
                    continue
                m = xor(m, mask)
                uses.setdefault((dom, a[:20]), {}).setdefault(a[20:28], set()).add(m)
            elif dom == 2 and full >= pad + 3 * n:
                pass
            else:
                odd[0] += 1
        pend.clear()

    sample = job.get("sample")
    if sample:
        c.hx_hash_log_sample(pad, n, *sample)
    c.hx_hash_log(1)
    key = Key(lib, p, job["seed"], dict(job, start=None), lambda o: None)
    pend += take()
    o = key.off + p.index_bytes
    pub, skseed, skprf = key.sk.get(o + 3 * n, n), key.sk.get(o, n), key.sk.get(o + n, n)
    gather(pub, skseed, skprf)
    whole = job["count"] == "all"
    cap = 2 ** p.full_height
    cnt = (cap - 1 if p.full_height == 8 * p.index_bytes else cap) if whole else job["count"]
    emit({"hdr": {"id": job["id"], "d": p.d, "th": p.tree_height, "len": p.wots_len, "w": p.wots_w, "whole": whole, "all": not fab}})
    jumps = job.get("jumps")
    signs = []
    for many, every in job.get("plan", ()):
        c.hx_hash_log(1)
        sm, mo = Buf(p.sig_bytes + 8), Buf(p.sig_bytes + 8)
        lib.c.hx_core_many(p.ptr, p.mt, key.sk.addr + key.off, key.pk[key.off:], sm.addr, mo.addr, many, every | 1 << 62, None)
        pend += take()
        gather(pub, skseed, skprf)
    for i in range(cnt):
        if jumps is not None:
            if not jumps:
                break
            key.sk.set(bytes(jumps.pop(0)), key.off)
        m = message(rnd, [16, 0, 60], i)
        at = list(key.sk.get(key.off, p.index_bytes))
        c.hx_hash_log(1)
        r, smlen, sm, mb = key.call_sign(key.sk, m)
        pend += take()
        gather(pub, skseed, skprf)
        ok = r == 0
        if ok and not fab:
            c.hx_hash_log(1)
            vr, vl, vb, good = key.call_open(sm.get())
            pend += take()
            gather(pub, skseed, skprf)
            ok = vr == 0
        if not sample:
            signs.append({"op": "sign", "i": at, "ok": ok})
    c.hx_hash_log(0)

    def word(b):
        v = int.from_bytes(b, "big")
        return v if v < 2 ** 31 else -1

    def group(a):
        return [word(a[:4])] + [int.from_bytes(a[4 + 2 * j:6 + 2 * j], "big") for j in range(4)] + [word(a[12:16]), word(a[16:20])]
    out = []
    only = job.get("only_keys")
    for (dom, a), at in [] if only else uses.items():
        out.append({"op": "at", "dom": dom, "a": group(a),
                    "at": sorted([word(b[:4]), word(b[4:]), ids.setdefault(m, len(ids) + 1)] for b, ms in at.items() for m in ms)})
    for a, at in secrets.items():
        l = []
        for b, s in at.items():
            first = uses.get((0, a), {}).get(b[:4] + bytes(4))
            l.append([word(b[:4]), word(b[4:8]), word(b[8:]), 1 if only or first in (None, {s}) else 0])
        out.append({"op": "at", "dom": 4, "a": group(a), "at": sorted(l)})
    for e in sorted(out, key=lambda e: [e["dom"]] + e["a"]):
        emit({"ev": e})
    for e in signs:
        emit({"ev": e})
    emit({"ev": {"op": "odd", "n": 0 if only else odd[0]}})


def run_shake(lib, job, emit):
    """Calls of shake128 and shake256 themselves.  how: calls | again | threads | long."""
    import ctypes as C
    import random, threading
    from .xlib import GBuf, Pages
    rnd = random.Random(job["seed"])
    fn = {"SHAKE128": lib.c.shake128, "SHAKE256": lib.c.shake256}
    for f in fn.values():
        f.argtypes = [C.c_void_p, C.c_ulonglong, C.c_void_p, C.c_ulonglong]
        f.restype = None
    emit({"hdr": {"id": job["id"], "kind": "shake"}})

    def content(what, n):
        return bytes(n) if what == 0 else b"\xff" * n if what == 1 else rnd.randbytes(n)

    def call(alg, m, n, at="end", shift=0):
        """Both buffers exactly as large as said, `shift' bytes off the edge of a page."""
        a, b = GBuf(len(m) + shift, at), GBuf(n + shift, at)
        lead = rnd.randbytes(shift)
        lo = 0 if at == "end" else shift             # shift bytes behind it, or before it
        a.set(m + lead if at == "end" else lead + m)
        b.fill(rnd.randrange(256))
        was, pre, wa, wb = a.get(), b.get(), a.around(), b.around()
        a.readonly()
        fn[alg](b.addr + lo, n, a.addr + lo, len(m))
        a.readonly(False)
        post = b.get()
        ok = (post[:lo] == pre[:lo] and post[lo + n:] == pre[lo + n:] and a.get() == was
              and wa == a.around() and wb == b.around())
        a.free()
        b.free()
        return post[lo:lo + n], ok

    def event(alg, m, out, n, ok):
        emit({"ev": {"op": "call", "alg": alg, "in": m.hex(), "out": out.hex(), "outlen": n, "mem": ok}})

    if job["how"] == "calls":
        for alg, l, n, what in job["calls"]:
            m = content(what, l)
            out, ok = call(alg, m, n, rnd.choice(("start", "end")), rnd.choice((0, 0, 1, 3, 4, 8)))
            event(alg, m, out, n, ok)
    elif job["how"] == "again":
        # one call a great many times, others in between
        seen = {}
        ins = [(alg, content(2, l), n) for alg, l, n in job["ins"]]
        bufs = [(C.create_string_buffer(m, len(m)), C.create_string_buffer(n)) for _, m, n in ins]
        for i in range(job["reps"]):
            j = rnd.randrange(len(ins))
            alg, m, n = ins[j]
            a, b = bufs[j]
            C.memset(b, i & 255, n)
            fn[alg](C.addressof(b), n, C.addressof(a), len(m))
            seen[(j, b.raw)] = a.raw[:len(m)] == m
        for (j, out), ok in seen.items():
            event(ins[j][0], ins[j][1], out, ins[j][2], ok)
    elif job["how"] == "threads":
        ins = [(alg, content(2, l), n) for alg, l, n in job["ins"]]
        seen, go = [set() for _ in ins], threading.Barrier(len(ins))

        def body(j):
            alg, m, n = ins[j]
            a, b = C.create_string_buffer(m, len(m)), C.create_string_buffer(n)
            go.wait()
            for i in range(job["reps"]):
                fn[alg](C.addressof(b), n, C.addressof(a), len(m))
                seen[j].add(b.raw)
        th = [threading.Thread(target=body, args=(j,)) for j in range(len(ins))]
        [t.start() for t in th]
        [t.join() for t in th]
        for j, outs in enumerate(seen):
            for out in sorted(outs)[:3]:
                event(ins[j][0], ins[j][1], out, ins[j][2], True)
    else:
        # inputs of zeros (pages that were never written), one byte apart
        L, cut = job["len"], job["len"] % (1 << 32)
        pg = Pages(L)
        at = pg.end - L
        for alg in job["algs"]:
            outs = []

            def one(l):
                b = GBuf(64)
                fn[alg](b.addr, 64, at, l)
                outs.append(b.get().hex())
            for l in (cut, L, L - 1):
                one(l)
            C.memset(at + L - 2, 1, 1)
            one(L)
            C.memset(at + L - 2, 0, 1)
            emit({"ev": {"op": "long", "outs": outs, "mem": True}})
        pg.free()
