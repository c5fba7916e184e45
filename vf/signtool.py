"""The signing tool under observation, from system call to system call."""
import errno, os, random, shutil, signal, subprocess, tempfile
from . import ptrace
from .driver_kinds import *          # noqa (get_params etc. are imported lazily)
from .xworker import Ops

ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EINTR": errno.EINTR, "ENOMEM": errno.ENOMEM, "EACCES": errno.EACCES, "EAGAIN": errno.EAGAIN}
MOVES = ("read", "write", "pread", "pwrite")
CALM = ("lseek", "exit", "nanosleep", "mmap", "brk")     # not made to fail one by one


class Bench:
    """A key file, a message and the tool."""

    def __init__(self, lib, job, emit):
        self.O, self.lib, self.job, self.emit = Ops(lib), lib, job, emit
        self.spec = job["set"]
        p = self.p = self.O.p(self.spec)
        self.d = tempfile.mkdtemp(prefix="sign-", dir=os.getcwd())
        self.key, self.msg = os.path.join(self.d, "key"), os.path.join(self.d, "msg")
        lib.rng(1, job["seed"])
        r, pk, sk = self.O.gen(self.spec)
        lib.rng(0)
        for i in range(job.get("ahead", 0)):
            self.O.sign(self.spec, sk.addr, b"%d" % i)
        self.pk = pk
        if "index" in job:
            sk.set(bytes(job["index"]), 4)
        self.m = random.Random(job["seed"]).randbytes(job["mlen"])
        self.first = pk + sk.get()
        self.skoff = len(pk)
        self.base = self.idx(self.first)
        self.cap = (1 << p.full_height) - (1 if p.full_height == 8 * p.index_bytes else 0)
        self.whole = {self.first}
        open(self.msg, "wb").write(self.m)

    def idx(self, data):
        return int.from_bytes(data[self.skoff + 4:self.skoff + 4 + self.p.index_bytes], "big")

    def rel(self, i):
        return min(min(i, self.cap) - self.base, 999999999)

    def begin(self, name):
        open(self.key, "wb").write(self.first)
        self.file = self.first
        self.outs, self.seen, self.n = {}, {}, 0
        self.torn = False
        self.emit({"hdr": {"id": self.job["id"] + "#" + name, "total": self.rel(self.cap)}})

    def begin_run(self):
        self.n += 1
        self.outs[self.n] = os.path.join(self.d, "out%d" % self.n)
        open(self.outs[self.n], "wb").close()
        self.seen[self.n] = b""
        # a state that no run has ever left as a whole: the rest of the key may be anything
        if self.file not in self.whole:
            self.torn = True
        return self.n

    def look(self, r=None):
        """What has changed for somebody who looks from outside."""
        try:
            with open(self.key, "rb") as f:
                now = f.read()
        except OSError:
            now = b""
        if now != self.file:
            part = len(now) == len(self.first) and now[:self.skoff + 4] == self.first[:self.skoff + 4]
            self.file = now
            self.emit({"ev": {"op": "file", "i": self.rel(self.idx(now)) if part else -1, "part": part}})
        for q in ([r] if r else list(self.outs)):
            try:
                with open(self.outs[q], "rb") as f:
                    o = f.read()
            except OSError:
                o = b""
            if o != self.seen[q]:
                self.seen[q] = o
                ib = self.p.index_bytes
                i = self.rel(int.from_bytes(o[:ib], "big")) if len(o) >= ib else self.rel(self.idx(self.file)) - 1
                full = len(o) == self.p.sig_bytes + len(self.m)
                ok = full and (self.torn or self.O.open(self.spec, self.pk, o) == (0, self.m))
                self.emit({"ev": {"op": "show", "r": q, "i": max(i, -5), "all": bool(ok)}})

    def spawn(self, r):
        fd = os.open(self.outs[r], os.O_WRONLY | os.O_APPEND)
        try:
            p = ptrace.Proc([self.job["tool"], self.key, self.msg], fd, cwd=self.d)
        finally:
            os.close(fd)
        p.r, p.count, p.on, p.names, p.short = r, 0, False, [], None
        return p

    def step(self, p, plan=None):
        """One stop of a traced run.  plan(n, name, regs) -> what to do with its n-th call
        (counted from where it opens the key file): None | ("kill",) | ("fail", errno) |
        ("short", k) | ("killafter", k | None)."""
        ev = p.step()
        if ev[0] == "in":
            _, nm, r = ev
            if not p.on and nm == "open" and p.string(r.rsi if r.orig_rax == 257 else r.rdi) == self.key.encode():
                p.on = True
            if p.on:
                p.count += 1
                p.names.append((nm, r.rdi if nm not in ("open",) else -1, r.rdx))
                act = plan(p.count, nm, r) if plan else None
                p.act = act
                if act and act[0] in ("fail", "short") and nm not in ("open", "fcntl", "mmap", "brk") and r.rdi == 1:
                    self.emit({"ev": {"op": "deaf", "r": p.r}})
                if act and act[0] == "kill":
                    p.kill()
                    return ("end",)
                if act and act[0] == "fail":
                    r.orig_rax = (1 << 64) - 1
                    p.setregs(r)
                if act and act[0] in ("short", "killafter") and act[1] is not None:
                    p.rdx = r.rdx
                    r.rdx = min(r.rdx, act[1])
                    p.setregs(r)
        elif ev[0] == "out" and p.on:
            act, r = getattr(p, "act", None), ev[2]
            if act and act[0] == "fail":
                r.rax = (1 << 64) - act[1]
                p.setregs(r)
            if act and act[0] == "short":
                r.rdx = p.rdx
                p.setregs(r)
            self.look()
            if act and act[0] == "killafter":
                p.kill()
                return ("end",)
            p.act = None
        return ev

    def ended(self, p):
        self.look()
        how, code = p.status
        if how == "signal":
            what = "killed" if code in (9, signal.SIGPIPE) else "failed" if self.torn else "crashed"
        else:
            what = "ok" if code == 0 else "failed"
        self.emit({"ev": {"op": "end", "r": p.r, "how": what, "silent": self.seen[p.r] == b""}})
        if what == "ok" and not self.torn:
            self.whole.add(self.file)

    def run(self, plan=None):
        p = self.spawn(self.begin_run())
        while self.step(p, plan)[0] != "end":
            pass
        self.ended(p)
        return p

    def plain(self):
        """An undisturbed run, not watched."""
        r = self.begin_run()
        with open(self.outs[r], "ab") as f:
            c = subprocess.run([self.job["tool"], self.key, self.msg], stdout=f, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=120)
        self.look()
        what = "ok" if c.returncode == 0 else "failed" if c.returncode > 0 or self.torn else "crashed"
        self.emit({"ev": {"op": "end", "r": r, "how": what, "silent": self.seen[r] == b""}})
        if what == "ok" and not self.torn:
            self.whole.add(self.file)

    def together(self, sched, procs=2):
        """Runs at the same time: sched is a list of (which, how many stops); then all to their ends."""
        ps = [self.spawn(self.begin_run()) for _ in range(procs)]
        stuck = set()

        def go(i, n):
            while n > 0 and ps[i].status is None:
                e = self.step(ps[i])
                if e[0] == "end":
                    self.ended(ps[i])
                    return
                if e[0] == "blocked":
                    return
                if ps[i].on:
                    n -= 1
        for i, n in sched:
            go(i, n)
        for _ in range(200):
            for i in range(procs):
                go(i, 10 ** 6)
            if all(p.status is not None for p in ps):
                break
        for p in ps:
            if p.status is None:
                p.kill()
                self.emit({"ev": {"op": "end", "r": p.r, "how": "hangs", "silent": True}})
        return ps


def scenarios(names, job, rnd):
    """Every call a crash and a fault point."""
    out = []
    N = len(names)
    for i, (nm, fd, size) in enumerate(names):
        n = i + 1
        out.append(("kill before %d %s" % (n, nm), {n: ("kill",)}))
        out.append(("kill after %d %s" % (n, nm), {n: ("killafter", None)}))
        if nm in MOVES and size < 1 << 40:
            for k in sorted({1, size // 2, max(0, size - 1), 2, 4, 7}):
                if 0 < k < size:
                    out.append(("short %d at %d %s" % (k, n, nm), {n: ("short", k)}))
                    if nm in ("write", "pwrite"):
                        out.append(("short %d then kill at %d %s" % (k, n, nm), {n: ("killafter", k)}))
            if nm == "read":
                out.append(("nothing at %d %s" % (n, nm), {n: ("short", 0)}))
        if nm not in CALM:
            for e in ("EIO", "ENOSPC", "EINTR") if nm in MOVES else ("EACCES", "ENOMEM", "EINTR"):
                if nm == "close" and e != "EINTR":
                    continue
                out.append(("%s at %d %s" % (e, n, nm), {n: ("fail", ERR[e])}))
    # for good: from the n-th call on, every call of this name on this descriptor
    for nm, fd in sorted({(x[0], x[1]) for x in names if x[0] in MOVES + ("lseek", "fsync", "fdatasync", "ftruncate", "mmap")}):
        fd = fd if nm not in ("brk", "mmap") else None
        many = [i + 1 for i, x in enumerate(names) if x[0] == nm and (fd is None or x[1] == fd)]
        for n in many:
            # (a single seek does not fail; all of them do, on something that cannot seek)
            if nm == "lseek" and n != many[0]:
                continue
            out.append(("%s on %s fails from %d on" % (nm, fd, n), {"from": n, "name": nm, "fd": fd, "err": errno.ENOSPC if "write" in nm else errno.ENOMEM if fd is None else errno.EIO}))
    return out


def planner(sc):
    if "from" in sc:
        return lambda n, nm, r: ("fail", sc["err"]) if n >= sc["from"] and nm == sc["name"] and (sc["fd"] is None or r.rdi == sc["fd"]) else None
    return lambda n, nm, r: sc.get(n)


def run_signtool(lib, job, emit):
    b = Bench(lib, job, emit)
    rnd = random.Random(job["seed"] * 7 + job.get("part", 0))
    try:
        b.begin("plain")
        p = b.run()
        names = list(p.names)
        for _ in range(job.get("more", 2)):
            b.plain()
        todo = []
        if "faults" in job:
            todo += [("f", x) for x in scenarios(names, job, rnd)]
        if "grid" in job:
            N = len(names) * 2
            pts = list(range(0, N + 2, 1))
            todo += [("g", (a, c)) for a in pts for c in [10 ** 6] + [x for x in range(0, N + 2, 2)]]
        if "random" in job:
            todo += [("r", i) for i in range(job["random"])]
        part, parts = job.get("part", 0), job.get("parts", 1)
        todo = todo[part::parts]
        if "pick" in job and len(todo) > job["pick"]:
            todo = rnd.sample(todo, job["pick"])
        for kind, x in todo:
            if kind == "f":
                b.begin(x[0])
                b.run(planner(x[1]))
                b.plain()
                b.plain()
            elif kind == "g":
                b.begin("%d/%d" % x)
                b.together([(0, x[0]), (1, x[1])])
                b.plain()
            else:
                b.begin("random %d" % x)
                n = rnd.choice((2, 3, 3, 4))
                b.together([(rnd.randrange(n), rnd.choice((1, 2, 5, 20, rnd.randrange(80)))) for _ in range(rnd.randrange(3, 20))], n)
                b.plain()
    finally:
        shutil.rmtree(b.d, ignore_errors=True)
