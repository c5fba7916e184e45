"""Common machinery of the checks: paths, builds, running TLC, reporting."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CC = "/usr/bin/gcc"
CFLAGS = ["-g", "-O3"]
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    """The check itself could not do its work (neither held nor violated)."""


_work = None


def workdir():
    """A scratch directory of this run, removed at exit."""
    global _work
    if _work is None:
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_work, ignore_errors=True))
    return _work


# ------------------------------------------------------------------ builds

def repo_sources(fast):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "*.c"))):
        b = os.path.basename(f)
        if b in ("xmss_core.c", "xmss_core_fast.c"):
            if (b == "xmss_core_fast.c") != fast:
                continue
        out.append(f)
    return out


_libs = {}


def build_lib(fast, sha="real", extra=(), tag=""):
    """One implementation as a shared object.
    sha: real | stub (see fastsha.c) | thin (stub, and the one-time scheme of thinwots.c)."""
    key = (fast, sha, tuple(extra), tag)
    if key in _libs:
        return _libs[key]
    out = os.path.join(workdir(), "lib_%s_%s%s.so" % ("fast" if fast else "ref", sha, tag))
    cmd = [CC] + CFLAGS + ["-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-I", REPO, "-o", out,
                           *extra,
                           os.path.join(HARN, "shim.c"),
                           os.path.join(HARN, "realsha.c" if sha == "real" else "fastsha.c")]
    if sha == "thin":
        cmd.append(os.path.join(HARN, "thinwots.c"))
    srcs = repo_sources(fast)
    if sha != "real":     # the first definition of shake128/shake256 counts: fastsha.c's
        cmd += ["-Wl,--allow-multiple-definition"]
    r = subprocess.run(cmd + srcs + ["-lcrypto", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    _libs[key] = out
    return out


def build_libs(which):
    """Several builds in parallel: list of (fast, sha[, extra[, tag]])."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda a: build_lib(*a), which))


def build_tool(name, mt, fast, sha="real"):
    """A command-line tool, with the repository's own build flags."""
    out = os.path.join(workdir(), "ui_%s_%s_%s_%s" % (name, "mt" if mt else "st", "fast" if fast else "ref", sha))
    if os.path.exists(out):
        return out
    cmd = [CC, "-g", "-O3", "-w"] + (["-DXMSSMT"] if mt else []) + ["-o", out + ".tmp"]
    if sha == "stub":
        cmd += ["-Wl,--allow-multiple-definition", os.path.join(HARN, "fastsha.c")]
    cmd += repo_sources(fast) + [os.path.join(REPO, "ui", name + ".c"), "-lcrypto"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    os.rename(out + ".tmp", out)
    return out


def java_classes():
    """Compiles the TLC operator overrides (once per version of their source)."""
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "classes-" + h)
    if not os.path.isdir(out):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="cls-", dir=os.path.join(VERIF, "build"))
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + srcs,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac: " + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


# --------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.ok = False
        self.violated = None      # name of violated invariant/property, "deadlock", "assert", ...
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.out = ""
        self.trace = []           # text of error-trace states
        self.printed = []
        self.wall = 0.0


def tlc(module, cfg=None, consts=None, env=None, workers=None, timeout=600, simulate=None,
        depth=None, deadlock=True, extra=(), mem="4g", seed=None, keep_cfg=None):
    """Runs TLC.  cfg: text of the configuration, or name of a file in spec/.
    Returns a TlcResult; raises CheckError when TLC itself failed."""
    cls = java_classes()
    md = tempfile.mkdtemp(prefix="tlc-", dir=workdir())
    if cfg is None:
        cfg = module + ".cfg"
    if "\n" in cfg:
        text = cfg
    else:
        text = open(os.path.join(SPEC, cfg)).read()
    if consts:
        text += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
    cfgp = os.path.join(md, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VfOverrides",
           "-DTLA-Library=" + SPEC,
           "-cp", cls + ":" + JARS, "tlc2.TLC", "-metadir", os.path.join(md, "states"),
           "-config", cfgp, "-workers", str(workers or NCPU), "-noGenerateSpecTE",
           "-checkpoint", "0"]
    if not deadlock:
        cmd += ["-deadlock"]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        raise CheckError("TLC timed out after %ds on %s\n%s" % (timeout, module, out[-2000:]))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    r.out, r.wall = out, time.time() - t0
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m.groups())
    else:
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m:
            r.generated = r.distinct = int(m.group(1).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))
    r.printed = [l for l in out.splitlines() if l.startswith('<<"') or l.startswith('"')]
    if "Model checking completed. No error has been found" in out:
        r.ok = True
        return r
    if simulate and p.returncode == 0 and "Error:" not in out:
        r.ok = True
        return r
    m = re.search(r"Invariant (\S+) is violated", out) or \
        re.search(r"Action property (\S+) is violated", out) or \
        re.search(r"Error: Temporal properties were violated", out)
    if m:
        r.violated = m.group(1) if m.groups() else "temporal"
    elif "Deadlock reached" in out:
        r.violated = "deadlock"
    elif re.search(r"The first argument of Assert evaluated to FALSE", out):
        r.violated = "assert"
    elif re.search(r"Assumption .* is false", out):
        r.violated = "assumption"
    if r.violated is None:
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, out[-4000:]))
    i = out.find("The behavior up to this point is")
    r.trace = re.split(r"\nState \d+:", out[i:]) if i >= 0 else []
    return r


# --------------------------------------------------------------- reporting

class Report:
    """Collects what one check covered, and its verdict."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = {"samples": []}
        self.assumptions = []
        self.violations = []
        self.t0 = time.time()
        self.models = []

    def model(self, name, r, note=""):
        self.models.append({"model": name, "distinct_states": r.distinct,
                            "states_generated": r.generated, "depth": r.depth,
                            "wall_s": round(r.wall, 2), "note": note})

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def finish(self):
        pid = self.pid
        known = load_known()
        real = []
        for what, detail in self.violations:
            k = [x for x in known if x.get("status") == "known" and x["property"] == pid
                 and x["match"] == what]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
            else:
                real.append((what, detail))
        self.cov.setdefault("states", sum(m["distinct_states"] for m in self.models))
        self.cov.setdefault("transitions", sum(m["states_generated"] for m in self.models))
        self.cov["models"] = self.models
        ev = {"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if real:
            rp = os.path.join(d, "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, pid + ".json")
            with open(path, "w") as f:
                json.dump([{"what": w, "detail": x} for w, x in real], f, indent=1, default=str)
            for w, x in real[:5]:
                print("  violated: %s" % w)
                print("    " + str(x)[:1500].replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in self.cov.items()
              if k not in ("samples", "models", "rule")})[:600]))
        return 0


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []
