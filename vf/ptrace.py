"""Runs a program of ours from system call to system call: watch, fail or kill it at each."""
import ctypes as C, errno, os, signal, time

_l = C.CDLL(None, use_errno=True)
_l.ptrace.restype = C.c_long
_l.ptrace.argtypes = [C.c_long, C.c_long, C.c_void_p, C.c_void_p]
TRACEME, CONT, KILL, GETREGS, SETREGS, SYSCALL, SETOPTIONS, PEEK = 0, 7, 8, 12, 13, 24, 0x4200, 1
NAMES = ("r15 r14 r13 r12 rbp rbx r11 r10 r9 r8 rax rcx rdx rsi rdi orig_rax rip cs eflags rsp ss fs_base gs_base ds es fs gs").split()


class Regs(C.Structure):
    _fields_ = [(n, C.c_ulonglong) for n in NAMES]


NR = {0: "read", 1: "write", 3: "close", 5: "fstat", 8: "lseek", 9: "mmap", 12: "brk", 17: "pread", 18: "pwrite", 19: "readv", 20: "writev",
      26: "msync", 40: "sendfile", 72: "fcntl", 73: "flock", 74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate", 82: "rename",
      87: "unlink", 2: "open", 257: "open", 262: "fstat", 264: "rename", 316: "rename", 231: "exit", 60: "exit", 295: "readv", 296: "writev",
      285: "fallocate", 318: "getrandom", 35: "nanosleep", 230: "nanosleep", 326: "copy_file_range", 263: "unlink", 86: "link", 265: "link"}


class Proc:
    def __init__(self, argv, out, err=None, cwd=None, close_out=False, preexec=None):
        self.status = None
        pid = os.fork()
        if pid == 0:
            try:
                if cwd:
                    os.chdir(cwd)
                os.setsid()
                nul = os.open("/dev/null", os.O_RDWR)
                os.dup2(nul, 0)
                os.dup2(nul, 2)
                if out is None:
                    os.close(1)
                else:
                    os.dup2(out, 1)
                os.closerange(3, 256)
                if preexec:
                    preexec()
                _l.ptrace(TRACEME, 0, None, None)
                os.execv(argv[0], argv)
            finally:
                os._exit(127)
        self.pid = pid
        self.waiting = False
        self.inside = None            # the call being executed
        _, st = os.waitpid(pid, 0)
        if not os.WIFSTOPPED(st):
            raise OSError("cannot trace")
        if _l.ptrace(SETOPTIONS, pid, None, 0x100001) < 0:      # EXITKILL | SYSGOOD
            raise OSError("cannot trace: %s" % os.strerror(C.get_errno()))

    def regs(self):
        r = Regs()
        if _l.ptrace(GETREGS, self.pid, None, C.byref(r)) < 0:
            raise OSError("regs")
        return r

    def setregs(self, r):
        _l.ptrace(SETREGS, self.pid, None, C.byref(r))

    def string(self, addr):
        try:
            with open("/proc/%d/mem" % self.pid, "rb", 0) as f:
                f.seek(addr)
                return f.read(4096).split(b"\0")[0]
        except (OSError, ValueError, OverflowError):
            return b""

    def go(self, sig=0):
        _l.ptrace(SYSCALL, self.pid, None, sig)
        self.waiting = True

    def sleeping(self):
        try:
            s = open("/proc/%d/stat" % self.pid).read()
            return s[s.rindex(")") + 2] == "S"
        except OSError:
            return False

    def wait(self, patience=0.02, limit=60):
        """To the next stop.  ("in", name, regs) | ("out", name, regs) | ("end",) | ("blocked",)"""
        t0 = time.time()
        slept = None
        lockish = self.inside in ("fcntl", "flock", "nanosleep") or (self.inside or "").startswith("?")
        while True:
            if not lockish:
                pid, st = os.waitpid(self.pid, 0)
            else:
                pid, st = os.waitpid(self.pid, os.WNOHANG)
                if pid == 0:
                    if self.sleeping():
                        slept = slept or time.time()
                        if time.time() - slept > patience:
                            return ("blocked",)
                    else:
                        slept = None
                    if time.time() - t0 > limit:
                        self.kill()
                        return ("end",)
                    time.sleep(0.0005)
                    continue
            self.waiting = False
            if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                self.status = ("exit", os.WEXITSTATUS(st)) if os.WIFEXITED(st) else ("signal", os.WTERMSIG(st))
                return ("end",)
            sig = os.WSTOPSIG(st)
            if sig != (signal.SIGTRAP | 0x80):
                self.go(0 if sig == signal.SIGTRAP else sig)
                continue
            r = self.regs()
            if self.inside is None:
                self.inside = NR.get(r.orig_rax, "?%d" % r.orig_rax)
                return ("in", self.inside, r)
            nm, self.inside = self.inside, None
            return ("out", nm, r)

    def step(self, **kw):
        if not self.waiting:
            self.go()
        return self.wait(**kw)

    def kill(self):
        if self.status is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            while True:
                try:
                    _, st = os.waitpid(self.pid, 0)
                except ChildProcessError:
                    self.status = ("signal", 9)
                    break
                if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                    self.status = ("exit", os.WEXITSTATUS(st)) if os.WIFEXITED(st) else ("signal", os.WTERMSIG(st))
                    break


def available():
    try:
        r, w = os.pipe()
        p = Proc(["/bin/true"], w)
        os.close(r), os.close(w)
        n = 0
        while p.step()[0] != "end":
            n += 1
        return n > 10 and p.status == ("exit", 0)
    except OSError:
        return False
