"""Logs of tasks: reading them back (read), and sessions whose log cannot be written (faults). Judged by spec/Logs.tla."""
import asyncio, datetime, itertools, json, logging, multiprocessing, os, random, threading, time, warnings
from purelib import call, collect
from psess import unlog

COUNT = itertools.count()
BOX = {}


class Spy(logging.Handler):
    """Notes every record, and fails where it is told to"""
    def __init__(self, bad):
        super().__init__()
        self.seen, self.bad, self.begun = [], bad, {}

    def emit(self, record):
        t, a = record.task_name, record.action
        if a == "run":
            self.begun[t] = time.monotonic()
        n = sum(x['t'] == t and x['a'] == a for x in self.seen) + 1
        bad = [t, a, n] in self.bad or [t, a, 0] in self.bad
        self.seen.append({"t": t, "a": a, "b": bad})
        if bad:
            raise RuntimeError("planned")


def put(**e):
    fd = os.open(BOX["file"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(e) + "\n").encode())
    os.close(fd)


def body(name, out, gone=None):
    from rocketry.exc import TaskInactionException, TaskTerminationException
    put(e="body", t=name)
    if out == "long":
        for _ in range(3000):
            if gone is not None and gone.is_set():
                raise TaskTerminationException()
            time.sleep(.01)
    if out == "fail":
        raise RuntimeError("planned")
    if out == "inaction":
        raise TaskInactionException()
    return "value"


async def abody(name, out):
    if out == "long":
        put(e="body", t=name)
        await asyncio.sleep(30)
    return body(name, out)


def faults(R, scratch):
    from rocketry import Session
    from rocketry.args import TerminationFlag
    from rocketry.conditions import SchedulerCycles, FuncCond
    from rocketry.core import BaseArgument
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRecord
    u = next(COUNT)
    log = f"vl{os.getpid()}x{u}"
    N = R.choice([2, 3, 4, 6])
    silent = R.random() < .6
    s = Session(config=dict(task_logger_basename=log, scheduler_logger_basename=log + "s", cycle_sleep=.001, max_process_count=100,
                            silence_task_logging=silent, shut_cond=SchedulerCycles() >= N))
    BOX.update(file=os.path.join(scratch, f"ev{u}.jsonl"))
    ts, bad, coin = {}, [], random.Random(R.random())
    spy = Spy(bad)
    procs = R.random() < .15        # several processes, starting while others end

    class Late(BaseArgument):
        """Is not to be had before the processes under way have ended"""
        def get_value(self, **kw):
            return 0

        def stage(self, task=None, **kw):
            t0 = time.monotonic()
            while any(x is not task and ts[x.name]["ex"] == "process" and ts[x.name]["out"] != "long" and x.is_alive() for x in s.tasks) and time.monotonic() - t0 < .3:
                time.sleep(.001)
            return self
    for n in ["a", "b", "c", "d"][:R.choice([1, 2, 3, 4]) if not procs else 3]:
        ex = R.choice(["main", "main", "async", "async", "thread", "process"]) if not procs else "process"
        when = R.choice(["cycle"] * 4 + ["startup", "shutdown"])
        out = R.choice(["success", "success", "fail", "inaction"])
        if ex != "main" and when != "shutdown" and R.random() < .3:
            out = "long"
        was = R.random() < .15          # under way in the log of an earlier session
        if was and R.random() < .4:
            bad.append([n, "crash", 0])
        f = R.random() < .5
        if f:
            a = R.choice(["run", "terminate" if out == "long" else out])
            bad.append([n, a, R.choice([0, 0, 1, 1, 2])])
            if R.random() < .2:
                bad.append([n, R.choice(["run", "success", "fail", "terminate"]), 0])
        ns = dict(body=body, abody=abody, TerminationFlag=TerminationFlag)
        sig, arg = ("flag=TerminationFlag()", ", flag") if ex == "thread" else ("", "")
        if procs and R.random() < .7:
            ns["late"], sig = Late(), "late=late"
        if ex == "async":
            exec(f"async def fun():\n    return await abody({n!r}, {out!r})\n", ns)
        else:
            exec(f"def fun({sig}):\n    return body({n!r}, {out!r}{arg})\n", ns)
        kw = {}
        if out == "long":
            tmo = .05 if ex == "process" else .001        # (a process is not killed in its first moments)
            kw = [{"end_cond": FuncCond(lambda n=n, tmo=tmo: time.monotonic() - spy.begun.get(n, 1e9) > tmo and coin.random() < .5)}]
            if ex != "process":
                kw = kw * (when == "cycle") + [{"timeout": tmo}]
            if when == "cycle":
                kw.append({"permanent": True})
            kw = R.choice(kw)
        s.create_task(func=ns["fun"], name=n, execution=ex, start_cond=FuncCond(lambda: True), priority=R.choice([0, 0, 1, 2]),
                      on_startup=when == "startup", on_shutdown=when == "shutdown", **kw)
        ts[n] = {"ex": ex, "when": when, "out": out, "was": was, "how": (list(kw) or [""])[0], "faulty": any(b[0] == n for b in bad)}
    lg = logging.getLogger(log)
    lg.setLevel(logging.INFO)
    lg.propagate = False
    hs = [spy, RepoHandler(MemoryRepo(model=MinimalRecord))]
    for n, t in ts.items():
        if t["was"]:
            hs[1].repo.add({"task_name": n, "action": "run", "created": time.time() - 100})
    first = R.random() < .3
    lg.handlers = hs[::-1] if first else hs
    logging.getLogger(log + "s").handlers = [logging.NullHandler()]
    logging.getLogger(log + "s").propagate = False
    for w, hook in (("startup", s.hook_startup), ("cycle", s.hook_scheduler_cycle), ("shutdown", s.hook_shutdown)):
        def h(w=w):
            put(e=w, p="pre")
            if w == "shutdown" and any(t["ex"] == "process" for t in ts.values()):
                time.sleep(.05)
            yield
            put(e=w, p="post")
        hook()(h)
    e = call(s.start, 5)[1]
    if e == "Stuck" and any(t["ex"] == "process" and t["out"] == "long" for t in ts.values()):
        for p in multiprocessing.active_children():         # a process was killed in a bad moment after all
            p.kill()
        unlog(log)
        return None
    alive = sum(t.n_alive for t in s.tasks)
    ev = [json.loads(x) for x in open(BOX["file"])]
    n0 = len(ev)
    time.sleep(.01)
    late = len(open(BOX["file"]).readlines()) - n0
    os.unlink(BOX["file"])
    res = {"k": "faults", "silent": silent, "n": N, "ts": ts, "bad": bad, "log": spy.seen, "e": e, "alive": alive, "late": late, "ev": ev,
           "first": first, "repo": {n: [r.action for r in hs[1].repo.filter_by(task_name=n).all()][int(ts[n]["was"]):] for n in ts},
           "status": {n: s[n].status or "none" for n in ts}, "cycles": sum(x["e"] == "cycle" and x["p"] == "post" for x in ev)}
    unlog(log)
    return res


class Ear(logging.Handler):
    """Keeps every record as it came"""
    def __init__(self):
        super().__init__()
        self.got, self.exc = [], []

    def emit(self, record):
        self.got.append(record)
        x = record.exc_info
        self.exc.append(logging.Formatter().formatException(x) if isinstance(x, tuple) else record.exc_text)


TICK = [0]


def ticks():
    TICK[0] += 1
    return 1_700_000_000 + TICK[0] * .25


def coarse():
    """A clock by which much happens at the same time"""
    TICK[0] += 1
    return 1_700_000_000 + TICK[0] // 16 * .25


TEXTS = ["planned", "with, comma", 'with "quotes"', "two\nlines", "ünï", "semi;colon", "trailing ", "'single'", "100%", "{braces}", "%s %d"]
NAMES = ["a", "b", "a b", "x,y", 'q"t', "ü", "a.b", "100%", "{n}", "a/b:c"]


def act(name, plan):
    """The body of a task: plan gives the outcome of each of its runs"""
    from rocketry.exc import TaskInactionException
    k = sum(1 for x in open(BOX["file"]) if json.loads(x)["t"] == name) if os.path.exists(BOX["file"]) else 0
    put(t=name)
    out, text, dt = plan[min(k, len(plan) - 1)]
    if dt:
        time.sleep(dt)
    if out == "fail":
        raise RuntimeError(text)
    if out == "inaction":
        raise TaskInactionException(text)
    return text


def micro(x):
    """A time or duration as recorded -> whole microseconds, as text"""
    if x is None:
        return "none"
    if isinstance(x, datetime.datetime):
        return str((x - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1))
    if isinstance(x, datetime.timedelta):
        return str(x // datetime.timedelta(microseconds=1))
    return micro(datetime.datetime.fromtimestamp(x)) if x > 1e8 else micro(datetime.timedelta(seconds=x))


FIELDS = {"MinimalRecord": [], "MinimalRunRecord": ["run_id"], "LogRecord": ["message", "levelname", "exc_text", "name"],
          "RunRecord": ["message", "levelname", "exc_text", "name", "run_id"], "TaskLogRecord": ["start", "end", "runtime", "message", "exc_text"],
          "TaskRunRecord": ["start", "end", "runtime", "message", "exc_text", "run_id"]}


def text_of(x):
    return "none" if x is None or x == "" else str(x)


def fields(r, which):
    get = (lambda k: r.get(k)) if isinstance(r, dict) else (lambda k: getattr(r, k, None))
    f = {"created": repr(float(get("created")))}
    for k in which:
        v = get(k)
        f[k] = micro(v) if k in ("start", "end", "runtime") else text_of(v)
    return {"t": get("task_name"), "a": get("action"), "f": f}


def read(R, scratch):
    import rocketry.log
    from rocketry import Session
    from rocketry.conditions import SchedulerCycles
    from redbird import oper
    from redbird.logging import RepoHandler
    from redbird.repos import CSVFileRepo, MemoryRepo
    u = next(COUNT)
    log = f"vr{os.getpid()}x{u}q"
    BOX.update(file=os.path.join(scratch, f"rd{u}.jsonl"))
    model = R.choice(list(FIELDS))
    M = getattr(rocketry.log, model)
    csv = os.path.join(scratch, f"log{u}.csv") if R.random() < .5 else None

    def repo():
        return CSVFileRepo(filename=csv, model=M) if csv else MemoryRepo(model=M)
    clock = R.choice([None, None, None, ticks, coarse])
    ear, rep = Ear(), RepoHandler(repo())
    lg = logging.getLogger(log)
    lg.setLevel(logging.INFO)
    lg.propagate = False
    lg.handlers = R.choice([[ear, rep], [rep, ear], [logging.NullHandler(), rep, ear]])
    logging.getLogger("s" + log).handlers = [logging.NullHandler()]
    logging.getLogger("s" + log).propagate = False
    conf = dict(task_logger_basename=log, scheduler_logger_basename="s" + log, cycle_sleep=.001, force_status_from_logs=R.random() < .2,
                **({"time_func": clock} if clock else {}))
    s = Session(config=conf)
    if R.random() < .3:
        s.config.func_run_id = lambda task, params: f"{task.name}-{next(COUNT)}"
    names = R.sample(NAMES, R.choice([1, 2, 3]))
    plans, res = {}, {"k": "read", "model": model, "csv": bool(csv), "e": ""}
    for n in names:
        plans[n] = [(R.choice(["success", "fail", "inaction"]), R.choice(TEXTS), R.choice([0, 0, 0, .001, .01])) for _ in range(3)]
        if clock is coarse:         # by the times alone a session over the log could not tell which of two outcomes came last
            plans[n] = plans[n][:1] * 3
        ex = R.choice(["main", "async", "thread"] + ([] if clock else ["process"]))
        ns = {"act": act}
        exec(f"{'async ' if ex == 'async' else ''}def fun():\n    return act({n!r}, {plans[n]!r})\n", ns)
        s.create_task(func=ns["fun"], name=n, execution=ex, start_cond=R.choice(["always true", None]))
    reads, steps = [], R.choice([1, 2, 3])
    for k in range(steps):
        s.config.shut_cond = SchedulerCycles() >= R.choice([1, 2])
        for n in R.sample(names, R.choice(range(len(names) + 1))):
            s[n].run()
        res["e"] = res["e"] or call(s.start, 30)[1]
        full = list(ear.got)
        for _ in range(R.choice([1, 2, 4])):
            t = R.choice(names)
            a = R.choice([[], [], ["run"], ["success"], ["fail"], ["success", "fail", "inaction"], ["terminate"]])
            kw = {"action": a[0] if len(a) == 1 and R.random() < .7 else oper.in_(a)} if a else {}
            how = R.choice(["session", "session+", "repo", "task", "records", "latest"])
            if how == "session":
                t, got = "", s.get_task_log(**kw)
            elif how == "session+":
                got = s.get_task_log(task_name=t, **kw)
            elif how == "repo":
                t, got = "", s.get_repo().filter_by(**kw).all()
            elif how == "task":
                got = s[t].logger.filter_by(**kw).all()
            elif how == "records":
                got = s[t].logger.get_records(**kw)
            else:
                a = a[:1]
                got = s[t].logger.get_latest(*a)
                got = [got] if got is not None else []
            reads.append({"how": how, "t": t, "as": a, "upto": len(full), "got": [fields(r, FIELDS[model]) for r in got]})
    now = s.get_time()
    truth = []
    for r, exc in zip(ear.got, ear.exc):
        x = fields(r, FIELDS[model])
        if "exc_text" in x["f"]:
            x["f"]["exc_text"] = text_of(exc)
        if "message" in x["f"]:
            x["f"]["message"] = r.getMessage()
        full = fields(r, ["start", "end", "runtime", "run_id"])["f"]
        fail = [p[1] for p in plans[r.task_name] if p[0] == "fail"]
        took = r.action == "run" or abs((r.end - r.start) - r.runtime) < 1e-6 and r.runtime >= 0
        took = took and (r.start if r.action == "run" else r.end) - .01 <= r.created <= now + .01       # by the session's clock
        truth.append({**x, "took": took, "at": micro(r.created), "run": full["run_id"], "start": full["start"], "end": full["end"], "runtime": full["runtime"],
                      "told": r.action != "fail" and not exc or r.action == "fail" and any(f"RuntimeError: {p}" in (exc or "") for p in fail)})
    st = {n: [s[n].status or "none"] + [micro(getattr(s[n], "last_" + a)) for a in ("run", "success", "fail")] for n in names}
    # another session over the same log
    if csv:
        lg.handlers = [RepoHandler(repo())]
    s2 = Session(config=dict(conf, shut_cond=SchedulerCycles() >= 0))
    for n in names:
        s2.create_task(func=act, name=n, execution="main")
    n0 = len(ear.got)
    res["e"] = res["e"] or call(s2.start, 30)[1]
    st2 = {n: [s2[n].status or "none"] + [micro(getattr(s2[n], "last_" + a)) for a in ("run", "success", "fail")] for n in names}
    wrote = len(list(s2.get_repo().filter_by().all())) - n0
    res.update(log=truth, reads=reads, status=st, status2=st2, wrote=wrote)
    for n in os.listdir(scratch):
        if n in (f"rd{u}.jsonl", f"log{u}.csv"):
            os.unlink(os.path.join(scratch, n))
    unlog(log)
    return res


def run(case, scratch, on_hang):
    logging.raiseExceptions = False
    warnings.simplefilter("ignore")
    it = itertools.count()
    f = {"faults": faults, "read": read}[case["what"]]

    def one():
        R = random.Random(f"{case['seed']}/{next(it)}")
        random.seed(R.random())
        return f(R, scratch)
    return collect(one, case["n"])
