"""Runs driver jobs in child processes and collects the traces they record."""
import json, os, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from .base import VERIF, NCPU, workdir, CheckError


def run_child(libpath, jobs, timeout):
    d = tempfile.mkdtemp(prefix="job-", dir=workdir())
    jp, op = os.path.join(d, "job.json"), os.path.join(d, "out.ndjson")
    job = {"jobs": jobs}
    if libpath:
        job["lib"] = libpath
    json.dump(job, open(jp, "w"))
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONHASHSEED="0", PYTHONFAULTHANDLER="0",
               MALLOC_PERTURB_="165")
    env.update(jobs[0].get("env") or {})
    t0 = time.time()
    p = subprocess.Popen([sys.executable, "-m", "vf.driver", jp, op], env=env, cwd=d,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
        how = None
        if p.returncode < 0:
            how = {"op": "crash", "signal": -p.returncode}
        elif p.returncode == 77:
            how = {"op": "absurd", "error": err.decode()[-600:]}
        elif p.returncode:
            raise CheckError("driver failed (%d): %s" % (p.returncode, err.decode()[-2500:]))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        how = {"op": "hang", "seconds": timeout}
    if os.environ.get('VF_TIMES'):
        print('%7.1fs %s' % (time.time() - t0, jobs[0].get('id')), file=sys.stderr)
    traces, cur, open_job = [], None, None
    if os.path.exists(op):
        for line in open(op):
            try:
                o = json.loads(line)
            except ValueError:
                break                    # cut off in the middle
            if "hdr" in o:
                cur = dict(o["hdr"], ev=[])
                traces.append(cur)
            elif "ev" in o:
                cur["ev"].append(o["ev"])
            elif "begin" in o:
                open_job = o["begin"]
                cur = None
            elif "end" in o:
                open_job = None
    if how:
        how = dict(how, job=str(open_job))
        if cur is None:
            cur = {"id": str(open_job), "stub": True, "ev": []}
            traces.append(cur)
        cur["ev"].append(how)
    return traces


def run_jobs(groups, timeout=300, par=None):
    """groups: list of (libpath, [job, ...]); each group is one process."""
    with ThreadPoolExecutor(par or NCPU) as ex:
        res = list(ex.map(lambda g: run_child(g[0], g[1], timeout), groups))
    return [t for r in res for t in r]


def write_traces(traces, name="traces.ndjson"):
    fd, path = tempfile.mkstemp(prefix="tr-", suffix="-" + name, dir=workdir())
    with os.fdopen(fd, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    return path
