"""Jobs -> recorded traces -> TLC, with confirmation of every rejection."""
import json, random, re, subprocess, sys
from . import base, jobs
from .base import CheckError, SEED, THOROUGH


def lib(fast, sha="stub", *a):
    return base.build_lib(fast, sha, *a)


PROBE = """
import sys, ctypes as C
from vf.xlib import Lib, Buf
l = Lib(sys.argv[1])
for th, d, n in ((3, 2, 24), (4, 1, 32)):
    p = l.custom(0, n, 16, th * d, d, 0, 1)
    l.c.hx_hash_reset(p.padding_len, p.n)
    r, pk, sk = l.core_keypair(p, 5)
    assert r == 0 and l.c.hx_hash_calls() < d * 2 ** th * 20 and l.c.hx_hash_kgcalls()
    sm, mo = Buf(p.sig_bytes + 8), Buf(p.sig_bytes + 8)
    assert l.c.hx_core_many(p.ptr, p.mt, sk.addr, pk.get(), sm.addr, mo.addr, 5, 1, None) == 5
    assert sm.intact() and mo.intact() and sk.intact() and pk.intact()
"""


def thin(fast):
    """The library with a stand-in for the one-time scheme as well (thinwots.c), or None
    where that does not replace the library's own (whose internal interface is free to change)."""
    try:
        l = base.build_lib(fast, "thin")
        r = subprocess.run([sys.executable, "-c", PROBE, l], cwd=base.VERIF, capture_output=True, text=True, timeout=60)
        return l if r.returncode == 0 else None
    except (CheckError, subprocess.TimeoutExpired):
        return None


def locate(r):
    """The trace and the event at which a behaviour of a Trace* module got stuck."""
    if not r.trace:
        raise CheckError("no error trace in TLC output:\n" + r.out[-3000:])
    last = r.trace[-1]
    k = int(re.search(r"/\\ k = (\d+)", last).group(1))
    pos = int(re.search(r"/\\ pos = (\d+)", last).group(1))
    return k, pos, last


def short(o, n=1500):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "..."


def check_traces(rep, module, groups, timeout=600, par=None, tlc_kw=None, name="", confirm=2,
                 keep=None, transform=None):
    """Runs the jobs of `groups' against the implementation and has TLC explain
    what happened as behaviours of `module'.  A rejection is reported when
    running the same jobs again gets rejected again."""
    tr = jobs.run_jobs(groups, timeout, par)
    if transform:
        tr = transform(tr)
    if not tr:
        raise CheckError("no traces recorded")
    ne = sum(len(t.get("ev") or [0]) for t in tr)
    r = base.tlc(module, env={"TRACES": jobs.write_traces(tr)}, timeout=timeout, **(tlc_kw or {}))
    rep.model(module + (":" + name if name else ""), r, "%d recorded traces, %d events" % (len(tr), ne))
    rep.add("traces_validated_against_impl", len(tr))
    rep.add("events_validated", ne)
    t = tr[len(tr) // 2]
    evs = t.get("ev") or [t]
    rep.sample({"trace": t.get("id"), "events": len(evs), "one": short(evs[len(evs) // 2], 500)})
    if r.ok:
        return tr
    k, pos, state = locate(r)
    bad = tr[k - 1]
    # which group recorded it?
    g = [g for g in groups if any(str(bad["id"]).split("#")[0] == str(j.get("id")) for j in g[1])]
    again = 0
    for _ in range(confirm):
        tr2 = jobs.run_jobs(g or groups, timeout, par)
        if transform:
            tr2 = transform(tr2)
        if not tr2:
            continue
        r2 = base.tlc(module, env={"TRACES": jobs.write_traces(tr2)}, timeout=timeout, **(tlc_kw or {}))
        if not r2.ok:
            again += 1
            break
    if not again:
        rep.add("unrepeated_rejections")
        return tr
    if "ev" not in bad:
        rep.violation("%s %s %s" % (name or module, bad["id"], bad.get("kind")), {"record": short(bad, 4000), "jobs": short(g, 6000)})
        return tr
    ev = bad["ev"][pos - 1] if pos <= len(bad["ev"]) else "(nothing more)"
    rep.violation("%s %s event %d" % (name or module, bad["id"], pos),
                  {"module": module, "key": {a: b for a, b in bad.items() if a != "ev"},
                   "event_no": pos, "event": short(ev), "previous": short(bad["ev"][max(0, pos - 3):pos - 1]),
                   "model_state": state[:1500], "jobs": g})
    return tr


def model_ok(rep, name, r, what):
    """A run of TLC on a specification alone: it has to hold."""
    rep.model(name, r, what)
    if not r.ok:
        raise CheckError("the specification itself fails: %s violated in %s\n%s"
                         % (r.violated, name, r.out[-2500:]))


def model_rejects(rep, name, r, what, expected=None):
    """A deliberately broken specification has to be rejected: the property is not vacuous."""
    rep.model(name, r, "negative control: " + what)
    if r.ok or (expected and r.violated != expected):
        raise CheckError("negative control accepted: %s: %s (%s)" % (name, what, r.violated))


def rng(tag):
    return random.Random("%s/%s" % (SEED, tag))


def flatten(traces):
    """Events as records of their own, for modules that judge records one by one."""
    out = []
    for t in traces:
        for i, e in enumerate(t["ev"]):
            out.append(dict({"kind": e.get("op", "?")}, **e, id="%s#%d" % (t["id"], i)))
    return out


def want(fn, n, w, h, d, mt=None):
    return dict(mt=(d > 1) if mt is None else bool(mt), func=fn, n=n, w=w, h=h, d=d)


def sparse_keys(rep, items, timeout=800):
    """Valid (public key, signed message) pairs made from the definition by TLC.
    items: dicts id, want, idx (field), m; the rest is filled in from the seed."""
    import os, tempfile
    from .driver_kinds import FUNCS
    recs = []
    for it in items:
        w = it["want"]
        R = rng("sparse" + it["id"])
        n, th = w["n"], w["h"] // w["d"]
        recs.append(dict(mt=bool(w["mt"]), func=FUNCS[w["func"]], n=n, w=w["w"], h=w["h"], d=w["d"], kind="sparse",
                         id=it["id"], idx=bytes(it["idx"]).hex(), m=it["m"].hex(),
                         skseed=R.randbytes(n).hex(), skprf=R.randbytes(n).hex(), seed=R.randbytes(n).hex(),
                         R=R.randbytes(n).hex(), auth=R.randbytes(w["d"] * th * n).hex()))
    d = tempfile.mkdtemp(prefix="sparse-", dir=base.workdir())
    r = base.tlc("Oracle", env={"TRACES": jobs.write_traces(recs), "OUT": d + "/"}, timeout=timeout, mem="8g")
    model_ok(rep, "Oracle:sparse", r, "%d keys and signatures made from the definition" % len(recs))
    out = []
    for i in range(len(recs)):
        o = json.load(open(os.path.join(d, "%d.json" % (i + 1))))
        out.append((items[i], bytes(o["pk"]), bytes(o["sm"])))
    return out


def proved(rep, module, deps=()):
    """A proof about the specification (all sizes), checked by tlapm; in the thorough tier."""
    if not THOROUGH:
        return
    import os, shutil, subprocess, tempfile, time
    d = tempfile.mkdtemp(prefix="proof-", dir=base.workdir())
    for m in (module,) + tuple(deps):
        shutil.copy(os.path.join(base.SPEC, m + ".tla"), d)
    t = time.time()
    for stretch in ("1", "5", "20"):
        p = subprocess.run(["tlapm", "--threads", "4", "--stretch", stretch, module + ".tla"], cwd=d, capture_output=True, text=True,
                           timeout=3000)
        m = re.search(r"All (\d+) obligations? proved", p.stdout + p.stderr)
        if m:
            rep.cov.setdefault("proofs", []).append({"module": module, "obligations": int(m.group(1)), "wall_s": round(time.time() - t, 1)})
            return
    raise CheckError("tlapm: %s\n%s" % (module, (p.stdout + p.stderr)[-2000:]))
