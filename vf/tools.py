"""The command-line tools on real files."""
import os, random, resource, shutil, signal, subprocess, tempfile
from .driver import get_params

LONG = 999999999


def run_tools(lib, job, emit):
    """job: sets [[name, mt]] (all of one family), tools {keypair,sign,open: path}, open2 (another build's), ops."""
    rnd = random.Random(job["seed"])
    sets = {i + 1: s[0] for i, s in enumerate(job["sets"])}
    P = {i: get_params(lib, s) for i, s in sets.items()}
    caps = [min(LONG, (1 << P[i].full_height) - (1 if P[i].full_height == 8 * P[i].index_bytes else 0)) for i in sets]
    emit({"hdr": {"id": job["id"], "caps": caps}})
    d = tempfile.mkdtemp(prefix="tools-", dir=os.getcwd())
    msgs = {i + 1: rnd.randbytes(n) for i, n in enumerate(job.get("mlens", [0, 1, 100, 5000]))}
    T = job["tools"]
    path = lambda *a: os.path.join(d, "".join(map(str, a)))
    for i, m in msgs.items():
        open(path("m", i), "wb").write(m)
    owner = {}                 # key file -> set
    moved = {}                 # key file -> what its index was moved by

    def tool(nm, *args, out=subprocess.PIPE, fsize=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGPIPE, signal.SIG_DFL if out == subprocess.PIPE else signal.SIG_IGN)
        try:
            p = subprocess.run([T[nm]] + list(args), stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.DEVNULL, cwd=d, preexec_fn=pre, timeout=100)
        except subprocess.TimeoutExpired:
            return {"crash": True, "code": -1, "hang": True}, b""
        return {"crash": p.returncode < 0, "code": p.returncode}, p.stdout or b""

    def files():
        return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, n))}

    def data(*a):
        try:
            return open(path(*a), "rb").read()
        except OSError:
            return b""

    def keypair(f, st):
        r, out = tool("keypair", sets[st])
        p = P[st]
        oid = p.oid.to_bytes(4, "big")
        open(path("k", f), "wb").write(out)
        owner[f] = st
        moved[f] = 0
        emit({"ev": dict(r, op="keypair", f=f, set=st, size=len(out) == 8 + p.pk_bytes + p.sk_bytes and out[:4] == oid
                         and out[4 + p.pk_bytes:8 + p.pk_bytes] == oid)})

    def sign(f, m, s, keyarg=None, msgarg=None):
        before = data("k", f)
        r, out = tool("sign", keyarg or path("k", f), msgarg or path("m", m))
        after = data("k", f)
        p = P[owner[f]] if f in owner else P[1]
        o = 8 + p.pk_bytes
        ev = dict(r, op="sign", f=f, m=m, s=s, empty=out == b"", same=before == after,
                  part=len(before) == len(after) and before[:o] == after[:o] and before[o + p.sk_bytes:] == after[o + p.sk_bytes:],
                  size=len(out) == p.sig_bytes + len(msgs[m]), tail=out[p.sig_bytes:] == msgs[m],
                  at=min(LONG, int.from_bytes(out[:p.index_bytes], "big")) - moved.get(f, 0))
        if r["code"] == 0 and out:
            open(path("s", s), "wb").write(out)
        emit({"ev": ev})
        return r["code"] == 0

    def opn(f, s, which="open"):
        before = files()
        r, _ = tool(which, path("k", f), path("s", s))
        emit({"ev": dict(r, op="open", f=f, s=s, same=files() == before)})

    def damage(f, c, at=None):
        b = data("k", f)
        p = P[owner[f]]
        o = 4 + p.pk_bytes
        bad = rnd.choice((0, 0xFFFFFFFF, 0x7F, 0x01000000 | p.oid, p.oid << 16, p.oid << 8, 0x80000000 | p.oid)).to_bytes(4, "big")
        n = {"tail": None, "public": o, "secretless": rnd.choice((o + 1, o + 3, o + 4, len(b) - 1, rnd.randrange(o + 1, len(b)))),
             "badsk": None, "badpk": None, "short": rnd.choice((1, 3, 4, 5, o - 1, rnd.randrange(1, o))), "empty": 0}[c]
        if at is not None:
            n = at
        if c == "tail":
            b += rnd.randbytes(rnd.choice((1, 4, 5000)))
        elif c == "badsk":
            b = b[:o] + bad + b[o + 4:]
        elif c == "badpk":
            b = bad + b[4:]
        else:
            b = b[:n]
        open(path("k", f), "wb").write(b)
        emit({"ev": {"op": "damage", "f": f, "c": c}})

    def alter(s, how=None):
        b = bytearray(data("s", s))
        st = rnd.choice(list(P.values()))
        S = [x for x in (p.sig_bytes for p in P.values()) if x <= len(b)] or [len(b)]
        how = how or rnd.choice(("bit", "bit", "cut", "cut", "cutsig", "longer", "empty", "index", "swap"))
        old = bytes(b)
        if how == "bit":
            b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        elif how == "cut":
            b = b[:rnd.randrange(len(b))]
        elif how == "cutsig":
            b = b[:max(0, rnd.choice(S) - rnd.choice((1, 2, 40)))]
        elif how == "longer":
            b += rnd.randbytes(rnd.choice((1, 32, 5000)))
        elif how == "empty":
            b = b""
        elif how == "index":
            b[rnd.randrange(3)] ^= 1 << rnd.randrange(8)
        else:
            i, j = rnd.randrange(len(b)), rnd.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        if bytes(b) == old:
            b += b"\0"
        open(path("s", s), "wb").write(bytes(b))
        emit({"ev": {"op": "alter", "s": s}})

    def badrun(what):
        before = files()
        if what == "name":
            good = rnd.choice(list(sets.values()))
            other = ("XMSSMT" + good[4:]) if not good.startswith("XMSSMT") else "XMSS" + good[6:]
            nm = rnd.choice(("", "x", good[:-1], good + " ", good + "0", " " + good, good.lower(), other, good.replace("_", "-"), "XMSS", "XMSSMT-SHA2_20/5_256",
                             "XMSS-SHA2_11_256", "XMSS-SHA2_10_128", "\xff" * 300, good * 2, good + "\n", "0x00000001", "1"))
            r, out = tool("keypair", nm)
        elif what == "out":
            # a key pair that cannot be written as a whole
            i = rnd.choice(list(sets))
            n = 8 + P[i].pk_bytes + P[i].sk_bytes
            if rnd.random() < 0.3:
                rd, wr = os.pipe()
                os.close(rd)
                r, out = tool("keypair", sets[i], out=wr)
                os.close(wr)
            else:
                with open(path("out"), "wb") as fo:
                    r, out = tool("keypair", sets[i], out=fo.fileno(), fsize=rnd.choice((0, 1, n // 2, 4 + P[i].pk_bytes, n - 1)))
                os.unlink(path("out"))
        else:
            f = path("k", rnd.choice(list(owner) or [1]))
            w = rnd.choice(("keypair", "sign", "open"))
            m = path("m", 1)
            args = rnd.choice({"keypair": ((), (list(sets.values())[0], "x")),
                               "sign": ((), (f,), (f, m, m), (path("nothing"), m), (f, path("nothing")), (d, m), (path("nothing"), path("nowhere")), (f, d)),
                               "open": ((), (f,), (f, m, m), (path("nothing"), m), (f, path("nothing")), (d, m), (f, d))}[w])
            if w == "open" and len(args) == 2 and args == (f, m):
                args = (f,)
            r, out = tool(w, *args)
            if w == "open":
                out = b""           # (it says what it thinks)
        emit({"ev": dict(r, op="bad", quiet=out == b"" and files() == before)})

    try:
        for o in job.get("ops", ()):
            op = o["op"]
            if op == "keypair":
                keypair(o["f"], o["set"])
            elif op == "bad":
                badrun(o["what"])
            elif op == "sign":
                sign(o["f"], o["m"], o["s"])
            elif op == "open":
                opn(o["f"], o["s"])
                if "open2" in T:
                    opn(o["f"], o["s"], "open2")
            elif op == "copy":
                shutil.copy(path("k", o["f"]), path("k", o["g"]))
                owner[o["g"]], moved[o["g"]] = owner[o["f"]], moved[o["f"]]
                emit({"ev": {"op": "copy", "f": o["f"], "g": o["g"]}})
            elif op == "damage":
                damage(o["f"], o["c"])
            elif op == "alter":
                alter(o["s"])
        if "life" in job:
            # to the end of the key and past it
            L = job["life"]
            keypair(1, 1)
            if "index" in L:
                b = bytearray(data("k", 1))
                o = 8 + P[1].pk_bytes
                b[o:o + P[1].index_bytes] = bytes(L["index"])
                open(path("k", 1), "wb").write(b)
                to = int.from_bytes(bytes(L["index"]), "big")
                if caps[0] == LONG:
                    raise SystemExit("no")
                emit({"ev": {"op": "move", "f": 1, "at": to}})
            pub = data("k", 1)[:4 + P[1].pk_bytes]
            open(path("k", 2), "wb").write(pub)
            owner[2] = 1
            emit({"ev": {"op": "copy", "f": 1, "g": 2}})
            emit({"ev": {"op": "damage", "f": 2, "c": "public"}})
            for i in range(L["count"]):
                s = 1 + i % 3
                if sign(1, 1 + i % len(msgs), s) and (i % L.get("stride", 1) == 0 or i > L["count"] - 5):
                    opn(1, s)
                    opn(2, s, "open2" if "open2" in T and i % 2 else "open")
                if i == 5:
                    for _ in range(3):
                        badrun("args")
        if "cuts" in job:
            # a key file of every length, a signed file of every length
            keypair(1, 1)
            sign(1, 2, 1)
            n = len(data("k", 1))
            pkb = 4 + P[1].pk_bytes
            near = sorted({x for c in (0, 4, pkb, pkb + 4, pkb + 4 + P[1].index_bytes, n) for x in range(c - 3, c + 4) if 0 <= x < n}
                          | {rnd.randrange(n) for _ in range(job["cuts"])})
            for x in near:
                shutil.copy(path("k", 1), path("k", 2))
                owner[2], moved[2] = 1, 0
                emit({"ev": {"op": "copy", "f": 1, "g": 2}})
                damage(2, "empty" if x == 0 else "short" if x < pkb else "public" if x == pkb else "secretless", at=x)
                sign(2, 1, 2)
                opn(2, 1)
            b = data("s", 1)
            n = len(b)
            for x in sorted({y for c in (0, P[1].index_bytes, P[1].index_bytes + P[1].n, P[1].sig_bytes, n) for y in range(c - 3, c + 4) if 0 <= y < n}
                            | {rnd.randrange(n) for _ in range(job["cuts"])}):
                open(path("s", 1), "wb").write(b[:x])
                emit({"ev": {"op": "alter", "s": 1}})
                opn(1, 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
