"""What the checks share: running cases on the real code, running TLC, reporting."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out"""


def scratch():
    return tempfile.mkdtemp(prefix="vrk")


def env():
    e = dict(os.environ)
    e.update(TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    e.pop("PYTHONPATH", None)
    return e


def run_cases(cases, tmp, jobs=None, timeout=600):
    """Runs the cases in worker processes. -> list of results, in order (None: not run because an earlier one hung)"""
    jobs = min(jobs or NCPU, max(1, len(cases)))
    parts = [list(range(j, len(cases), jobs)) for j in range(jobs)]
    procs = []
    for j, idx in enumerate(parts):
        d = os.path.join(tmp, f"wk{j}_{time.monotonic_ns()}")
        os.mkdir(d)
        inp, out = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        json.dump([cases[i] for i in idx], open(inp, "w"))
        log = open(os.path.join(d, "log"), "w")
        procs.append((idx, out, d, subprocess.Popen([PY, os.path.join(HERE, "worker.py"), inp, out], env=env(), cwd=d,
                                                    stdout=log, stderr=log, stdin=subprocess.DEVNULL)))
    res = [None] * len(cases)
    t0 = time.monotonic()
    for idx, out, d, p in procs:
        try:
            p.wait(max(1, timeout - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError("a worker ran out of time")
        if not os.path.exists(out):
            tail = open(os.path.join(d, "log")).read()[-3000:]
            raise CheckError(f"a worker failed (exit {p.returncode}):\n{tail}")
        for i, r in zip(idx, json.load(open(out))):
            res[i] = r
        shutil.rmtree(d, ignore_errors=True)
    return res


def tlc(module, cfg=None, tmp=None, args=(), envs=None, timeout=800, workers=None, heap="3g"):
    """Runs TLC in a copy of the specification directory's names (metadata in tmp). -> (exit code, output)"""
    md = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    e = env()
    e.update(envs or {})
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss16m", "-cp",
           JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or NCPU), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC ran out of time on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tla_values(out, tag):
    """Values printed as <<"TAG", ...>> (they may go over several lines)"""
    flat = re.sub(r"\s*\n\s*", " ", out)
    return re.findall(r'<<\s*"%s",(.*?)>>(?=\s|$)' % tag, flat)


def check_traces(traces, tmp, workers=None):
    """-> ([set of clauses broken by each trace], [index of the event], states)"""
    f = os.path.join(tmp, f"traces{time.monotonic_ns()}.json")
    json.dump([{"cfg": t["cfg"], "ev": t["ev"]} for t in traces], open(f, "w"))
    rc, out = tlc("TraceCheck", tmp=tmp, envs={"TRACES": f}, workers=workers)
    os.unlink(f)
    got = {}
    for v in tla_values(out, "VERDICT"):
        m = re.match(r"\s*(\d+), (\d+), (\d+), \{(.*)\}\s*$", v)
        if m:
            got[int(m[1]) - 1] = (set(re.findall(r'"(\w+)"', m[4])), int(m[2]))
    if rc != 0 or len(got) != len(traces):
        raise CheckError(f"trace check failed (exit {rc}, {len(got)} verdicts for {len(traces)} traces):\n{out[-4000:]}")
    return [got[i][0] for i in range(len(traces))], [got[i][1] for i in range(len(traces))], stats(out)[1]
