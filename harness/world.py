"""Runs one world (a session, its tasks and a script of what its environment does) on the real code
and records the events that spec/Monitor.tla is about.

Only the public interface is used: tasks are created through the session, the environment acts through
Task.run / Task.terminate / Task.disabled / session.shut_down / session.restart / conditions, and what
happens is seen through log records, hooks, task bodies and the public attributes of the tasks.

Time is virtual (config.time_func): ticks of 1/64 s, moved only by the driver (this module).  Every reading
of the clock within a tick is a microsecond later than the one before, as with a real clock.
"""
import asyncio, contextvars, datetime, json, logging, math, mmap, os, shutil, signal, struct, sys, tempfile
import threading, time, warnings

warnings.simplefilter("ignore")
BASE = 1_700_000_000
TICK = 64
WAIT = 20.0          # seconds of real time to wait for a thread or process to do what it must do
_cur = contextvars.ContextVar("run", default="none")
_n = [0]
MARK = "callback fails"
_cls = {}


def task_class():
    """Tasks with callbacks that fail when told to by what the body returns or raises"""
    if not _cls:
        from rocketry.tasks import FuncTask

        class CbTask(FuncTask):
            def process_success(self, output):
                if isinstance(output, str) and output == MARK:
                    raise RuntimeError("planned")

            def process_failure(self, exc_type, exc_val, exc_tb):
                if exc_val.args == (MARK,):
                    raise RuntimeError("planned")
        CbTask.__qualname__ = "CbTask"
        globals()["CbTask"] = _cls["CbTask"] = CbTask
    return _cls["CbTask"]


def ticks(ts):
    return -1 if ts is None else math.floor((ts - BASE) * TICK + 1e-4)


class Hang(BaseException):
    pass


class World:
    def __init__(self, spec, scratch):
        self.spec, self.cfg = spec, spec["cfg"]
        self.tspec = {t["name"]: t for t in spec["tasks"]}
        self.ev, self.lock = [], threading.RLock()
        self.clock = mmap.mmap(-1, 8)
        self.settick(self.cfg.get("now", 100))
        self.jit, self.jtick = 0, -1
        self.dir = tempfile.mkdtemp(prefix="w", dir=scratch)
        self.repfd = os.open(os.path.join(self.dir, "rep"), os.O_CREAT | os.O_RDWR | os.O_APPEND)
        self.reppos = 0
        self.box = {n: {"c": t["c0"], "e": t["e0"]} for n, t in self.tspec.items()}
        self.runs, self.nrun = {}, 0          # rid -> harness side of a run
        self.count = {n: 0 for n in self.tspec}
        self.phase, self.serve_i, self.cyc_i = "init", 0, 0
        self.pid = os.getpid()
        self.err = None
        self.reqs = 0
        self.gone = set()

    # ------------------------------------------------------------------ clock
    def settick(self, k):
        self.clock[:8] = struct.pack("<q", k)

    def tick(self):
        return struct.unpack("<q", self.clock[:8])[0]

    def time(self):
        with self.lock:
            k = self.tick()
            if k != self.jtick:
                self.jtick, self.jit = k, 0
            self.jit += 1
            return BASE + k / TICK + min(self.jit, 12000) * 1e-6

    def advance(self, d):
        if d:
            self.quiesce()
            with self.lock:
                self.settick(self.tick() + d)

    # ------------------------------------------------------------------ events
    def emit(self, e, **kw):
        with self.lock:
            self.ev.append({"e": e, "now": self.tick(), **kw})

    def on_record(self, rec):
        act, t = getattr(rec, "action", "none"), getattr(rec, "task_name", "none")
        rid = getattr(rec, "run_id", None)
        rid = "none" if rid is None else str(rid)
        with self.lock:
            if act != "run" and self.pid == os.getpid() and self.tspec.get(t, {}).get("x") == "process":
                self.read_reports(known=True)
            self.emit("rec", t=str(t), act=str(act), rid=rid, created=ticks(rec.created),
                      start=ticks(getattr(rec, "start", None)), end=ticks(getattr(rec, "end", None)))
            r = self.runs.get(rid)
            if r is None:
                return
            if act == "run":
                r["logged"] = True
            else:
                r["fin"] = True

    # ------------------------------------------------------------------ runs
    def new_rid(self, task, params=None):
        with self.lock:
            self.nrun += 1
            rid = f"r{self.nrun}"
            i = self.count[task.name]
            self.count[task.name] += 1
        t = self.tspec[task.name]
        plan = t["plan"][i % len(t["plan"])]
        self.runs[rid] = {"t": task.name, "plan": plan, "left": plan["hold"], "rel": plan["hold"] == 0, "b0": False,
                          "b1": False, "fin": False, "logged": False, "flag": None, "x": t["x"]}
        _cur.set(rid)
        return rid

    def begin(self, rid, tag, flag=None):
        r = self.runs.get(rid)
        if r is not None:
            r["b0"], r["flag"] = True, flag
        self.emit("b0", rid=rid, tag=str(tag))

    def end(self, rid, out, ret="none"):
        with self.lock:
            self.emit("b1", rid=rid, out=out, ret=ret)
            if rid in self.runs:
                self.runs[rid]["b1"] = True

    def finish(self, rid, name):
        """How the body of a run ends, in the body's own thread"""
        from rocketry.exc import SchedulerExit, TaskInactionException, TaskTerminationException
        plan = self.runs[rid]["plan"]
        if self.runs[rid]["x"] != "thread":
            for a in plan.get("acts", ()):
                self.act(a, body=True)
            if self.runs[rid]["x"] == "main" and plan.get("dt"):
                self.advance(plan["dt"])
        out = plan["out"]
        if out == "ok":
            val = plan["ret"]
            self.end(rid, "ok", repr(val))
            return val
        if out == "exit":
            with self.lock:
                self.end(rid, "exit")
                if self.runs[rid]["x"] == "main":
                    self.emit("env", a="exc", v="exit")
            raise SchedulerExit("exit")
        self.end(rid, out)
        if out == "inact":
            raise TaskInactionException("x")
        if out == "selfterm":
            raise TaskTerminationException("x")
        return fail(plan)

    def released(self, rid):
        return self.runs[rid]["rel"]

    # ------------------------------------------------------------------ bodies
    def make_body(self, name):
        from rocketry.exc import TaskTerminationException
        W, t = self, self.tspec[name]

        if t["x"] == "process":
            def body(run="none", tag="-"):
                return proc_body(W, run, tag)
            return body

        if t["x"] == "thread":
            def body(run="none", tag="-", flag=None):
                W.begin(run, tag, flag)
                heed = W.runs[run]["plan"]["mode"] == "heed"
                while not W.released(run):
                    if heed and flag is not None and flag.is_set():
                        W.end(run, "flagterm")
                        raise TaskTerminationException("told to")
                    time.sleep(0.0005)
                return W.finish(run, name)
            return body

        if t.get("sync"):
            def body(run="none", tag="-"):
                W.begin(run, tag)
                return W.finish(run, name)
            return body

        async def body(run="none", tag="-"):
            W.begin(run, tag)
            try:
                while not W.released(run):
                    await asyncio.sleep(0)
                    if t["x"] == "main":
                        r = W.runs[run]
                        r["left"] -= 1
                        r["rel"] = r["left"] <= 0
            except asyncio.CancelledError:
                mode = W.runs[run]["plan"]["mode"]
                if mode == "linger":
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                if mode != "swallow":
                    W.end(run, "cancel")
                    raise
            return W.finish(run, name)
        return body

    # ------------------------------------------------------------------ processes
    def read_reports(self, known=False):
        """Takes in what the processes have reported (known: up to the first report of a run not logged yet)"""
        data = os.pread(self.repfd, 1 << 20, self.reppos)
        for line in data[:data.rfind(b"\n") + 1].splitlines(keepends=True):
            d = json.loads(line)
            if known and not self.runs.get(d["rid"], {"logged": True})["logged"]:
                break
            self.reppos += len(line)
            r = self.runs.get(d["rid"])
            if r is None:
                continue
            if d["e"] == "w0":
                r["w0"] = True
            elif d["e"] == "b0":
                r["b0"] = True
                self.emit("b0", rid=d["rid"], tag=d["tag"])
            else:
                r["b1"] = True
                self.emit("b1", rid=d["rid"], out=d["out"], ret=d["ret"])

    def report(self, **d):
        if os.getpid() == self.pid:
            if d["e"] == "b1":
                self.end(d["rid"], d["out"], d["ret"])
        else:
            os.write(self.repfd, (json.dumps(d) + "\n").encode())

    # ------------------------------------------------------------------ waiting for threads and processes
    def settled(self):
        for rid, r in list(self.runs.items()):
            if r["x"] not in ("thread", "process") or r["fin"] or not r["logged"]:
                continue
            bad = self.tspec[r["t"]]["bad"] != "no" and not r["plan"].get("good")
            if bad and r["x"] == "process" and not r["rel"]:
                if not r.get("w0"):
                    return False
                continue
            going = r["rel"] or bad or (r["x"] == "thread" and r["plan"]["mode"] == "heed" and r["flag"] is not None and r["flag"].is_set())
            if going:
                if not r["b1"] or r["x"] == "thread":
                    return False
            elif not r["b0"]:
                return False
        for name, t in self.tspec.items():
            if t["x"] in ("thread", "process"):
                live = sum(1 for r in self.runs.values() if r["t"] == name and r["logged"] and not r["b1"] and not r["fin"])
                if name in self.task and self.task[name].n_alive > live:
                    return False
        return True

    def quiesce(self):
        if not self.par:
            return
        t0 = time.monotonic()
        while True:
            self.read_reports()
            if self.settled():
                break
            if time.monotonic() - t0 > WAIT:
                self.slow = getattr(self, "slow", 0) + 1
                if self.slow > 2:
                    raise Hang()
                break
            time.sleep(0.0005)

    def flags(self):
        return sorted(rid for rid, r in self.runs.items()
                      if r["flag"] is not None and not r["b1"] and r["flag"].is_set())

    def release(self, force=False):
        """One step nearer to the end of the bodies (force: those of processes end at once)"""
        for rid, r in self.runs.items():
            if r["x"] == "main" or r["rel"] or not r["logged"]:
                continue
            if force and r["x"] != "process":
                continue
            r["left"] -= 1
            if r["left"] <= 0 or force:
                r["rel"] = True
                if r["x"] == "process":
                    open(os.path.join(self.dir, rid), "w").close()

    # ------------------------------------------------------------------ the environment
    def act(self, a, body=False):
        k = a["a"]
        if k == "add":
            if self.phase == "main" and a["t"] not in self.task:
                self.emit("env", a="add", t=a["t"])
                self.make_task(a["t"])
            return
        if k == "del":
            if self.phase == "main" and a["t"] in self.task and a["t"] not in self.gone:
                self.gone.add(a["t"])
                self.emit("env", a="del", t=a["t"])
                t = self.task[a["t"]]
                {"name": lambda: self.session.remove_task(a["t"]), "task": lambda: self.session.remove_task(t)}.get(a.get("style"), t.delete)()
            return
        if k in ("req", "dis", "term") and (a["t"] not in self.task or a["t"] in self.gone):
            return
        if k == "req":
            t = self.tspec[a["t"]]
            if t["c0"] == "none" and ((self.phase == "startup" and t["su"]) or (self.phase == "shutdown" and t["sd"])):
                return      # whether this comes before or after the run that such a task gets anyway is not specified
            self.reqs += 1
            tag = f"q{self.reqs}"
            self.emit("env", a="req", t=a["t"], tag=tag)
            if a.get("style") == "dict":
                self.task[a["t"]].run({"tag": tag})
            else:
                self.task[a["t"]].run(tag=tag)
        elif k in ("cond", "end"):
            self.emit("env", a=k, t=a["t"], v=a["v"])
            self.box[a["t"]]["c" if k == "cond" else "e"] = a["v"]
        elif k == "dis":
            t = self.tspec[a["t"]]
            if t["c0"] == "none" and ((self.phase == "startup" and t["su"]) or (self.phase == "shutdown" and t["sd"])):
                return      # likewise
            self.emit("env", a="dis", t=a["t"], v=a["v"])
            self.task[a["t"]].disabled = a["v"]
        elif k == "term":
            t = self.tspec[a["t"]]
            if t["x"] == "process" and (not self.task[a["t"]].is_alive() or self.may_start(a["t"])):
                return      # stopping a process in the middle of its start: see DESIGN.md
            self.emit("env", a="term", t=a["t"])
            self.task[a["t"]].terminate()
        elif k == "hold":
            self.emit("env", a="hold", v=a["v"])
            self.session.scheduler.on_hold = a["v"]
        elif k == "shut":
            f = a.get("force")
            self.emit("env", a="shut", v=bool(f), again=f is None)
            self.session.shut_down(force=f) if f is not None else self.session.shut_down()
        elif k == "relall":
            self.release(force=True)
            self.quiesce()
        elif k == "restart":
            self.emit("env", a="exc", v="restart")
            self.session.restart()

    def may_start(self, name):
        return bool(self.task[name].batches) or self.box[name]["c"] == "T"

    # ------------------------------------------------------------------ snapshots
    def snap(self):
        from rocketry.args import Return
        out = {}
        for n in sorted(t.name for t in self.session.tasks):
            t = self.task[n]
            try:
                ret = repr(Return(n).get_value(session=self.session))
            except KeyError:
                ret = "none"
            st = t.status
            last = {}
            for a in ("run", "success", "fail", "inaction", "terminate", "crash"):
                v = getattr(t, "last_" + a)
                last[a] = -1 if v is None else ticks(v.timestamp())
            out[n] = {"st": "none" if st is None else st, "last": last, "n": t.n_alive, "alive": bool(t.is_alive()), "ret": ret}
        return out

    # ------------------------------------------------------------------ driving
    def pre(self):
        sv = self.spec["serves"][self.serve_i]
        cyc = sv["cycles"][self.cyc_i] if self.cyc_i < len(sv["cycles"]) else {"dt": 1, "acts": [{"a": "shut", "force": True}] if self.cyc_i > len(sv["cycles"]) + 3 else []}
        self.cyc_i += 1
        self.advance(cyc["dt"])
        self.release()
        self.advance(1)
        for a in cyc["acts"]:
            self.act(a)
        self.emit("cyc0")

    def post(self):
        self.quiesce()
        self.emit("cyc1", tasks=self.snap(), flags=self.flags())

    async def drainer(self):
        while True:
            await asyncio.sleep(0)
            if self.phase == "shutdown":
                self.quiesce()
                self.emit("drain", flags=self.flags())
                self.advance(self.cfg.get("draindt", 1))
                self.release()
                self.quiesce()
                if self.par:
                    await asyncio.sleep(0)

    def run(self):
        from rocketry import Session
        from rocketry.core import BaseCondition, BaseArgument
        from rocketry.args import TerminationFlag
        from rocketry.conditions import SchedulerCycles
        from rocketry.log import MinimalRecord
        from redbird.logging import RepoHandler
        from redbird.repos import MemoryRepo
        W, cfg = self, self.cfg
        _n[0] += 1
        base = f"vw{os.getpid()}x{_n[0]}"

        class Flag(BaseCondition):
            def __init__(self, name, key):
                self.name, self.key = name, key

            def get_state(self):
                v = W.box[self.name][self.key]
                if v == "E":
                    if not cfg["silcond"]:
                        W.emit("env", a="exc", v="fatal")
                    raise RuntimeError("planned")
                return v == "T"

            def __str__(self):
                return f"flag {self.name} {self.key}"

        class RunTag(BaseArgument):
            def get_value(self, **kw):
                return _cur.get()

            def stage(self, **kw):
                # other processes end while this one is being started
                if W.runs.get(_cur.get(), {"plan": {}})["plan"].get("stagerel"):
                    W.release(force=True)
                    W.quiesce()
                return super().stage(**kw)

        class Bad(BaseArgument):
            def __init__(self, name, where):
                self.name, self.where = name, where

            def good(self, rid):
                return W.runs.get(rid, {"plan": {}})["plan"].get("good", False)

            def stage(self, **kw):
                if self.where == "stage" and not self.good(_cur.get()):
                    if not cfg["silpre"]:
                        W.emit("env", a="exc", v="fatal")
                    raise RuntimeError("planned")
                new = Bad(self.name, self.where)
                new.rid = _cur.get()
                return new

            def get_value(self, **kw):
                rid = getattr(self, "rid", None) or _cur.get()
                if self.good(rid):
                    return None
                if os.getpid() != W.pid:
                    time.sleep(0.02)       # as in proc_body
                    W.report(e="w0", rid=rid)
                    wait_release(W, rid)
                W.report(e="b1", rid=rid, out="bad", ret="none")
                if W.tspec[self.name]["x"] == "main" and not cfg["silpre"]:
                    W.emit("env", a="exc", v="fatal")
                raise RuntimeError("planned")

        self.repo = MemoryRepo(model=MinimalRecord)
        logger = logging.getLogger(base)
        logger.setLevel(logging.INFO)
        logger.propagate = False

        class H(logging.Handler):
            def emit(self, record):
                W.on_record(record)
        logger.handlers = [RepoHandler(self.repo), H()]
        slog = logging.getLogger(base + "s")
        slog.propagate = False
        slog.handlers = [logging.NullHandler()]
        hist = sorted(((k, n, act) for n, t in self.tspec.items() for act, k in t["hist"]), key=lambda x: x[0])
        at = {}
        for j, (k, n, act) in enumerate(hist):
            at.setdefault((k, n), BASE + k / TICK + j * 1e-5)       # records of a task within a tick: at the very same time
            self.repo.add({"task_name": n, "action": act, "created": at[k, n]})
        kw = {}
        if cfg["shutcyc"]:
            kw["shut_cond"] = SchedulerCycles() >= cfg["shutcyc"]
        conf = dict(
            task_logger_basename=base, scheduler_logger_basename=base + "s", time_func=self.time,
            cycle_sleep=None, multilaunch=cfg["multi"], max_process_count=cfg["maxproc"],
            timeout=datetime.timedelta(seconds=(cfg["timeout"] + .5) / TICK), instant_shutdown=cfg["instant"],
            silence_cond_check=cfg["silcond"], silence_task_prerun=cfg["silpre"], func_run_id=self.new_rid,
            restarting="recall", force_status_from_logs=cfg.get("logs", False), execution=cfg.get("defx", "async"), **kw)
        self.session = s = Session(config=conf)
        s.set_as_default()
        self.task = {}
        def make_task(n):
            t = self.tspec[n]
            params = {"run": RunTag()}
            if t["bad"] != "no":
                params["zbad"] = Bad(n, t["bad"])
            if t["x"] == "thread":
                params["flag"] = TerminationFlag()
            func = self.make_body(n)
            if t["bad"] != "no":
                func = with_bad(func, t["x"])
            extra = {}
            if t["to"] == "never":
                extra["timeout"] = "never"
            elif t["to"] == "val":
                extra["timeout"] = datetime.timedelta(seconds=(t["ton"] + .5) / TICK)
            x = t["x"] if t["x"] != cfg.get("defx", "async") or not t.get("xdef") else None
            make = s.create_task
            if any(p.get("cb", "none") != "none" for p in t["plan"]):
                make, extra["session"] = task_class(), s
            self.task[n] = make(
                func=func, name=n, execution=x, priority=t["p"],
                start_cond=None if t["c0"] == "none" else Flag(n, "c"), end_cond=Flag(n, "e"),
                multilaunch={"none": None, "yes": True, "no": False}[t["m"]], permanent=t["perm"],
                on_startup=t["su"], on_shutdown=t["sd"], disabled=t["dis"], parameters=params, **extra)
        self.make_task = make_task
        for n, t in self.tspec.items():
            if not t.get("late"):
                make_task(n)
        self.par = any(t["x"] in ("thread", "process") for t in self.tspec.values())

        @s.hook_startup()
        def _su():
            W.phase, W.cyc_i, W.exec_i = "startup", 0, W.serve_i
            W.emit("startup0")
            W.ups = getattr(W, "ups", 0) + 1
            if W.ups > len(W.spec["serves"]) + 1:       # it would go on for ever
                raise Hang()
            yield
            W.quiesce()
            W.phase = "main"
            W.emit("startup1", tasks=W.snap())

        @s.hook_scheduler_cycle()
        def _cy():
            W.pre()
            yield
            W.post()

        @s.hook_shutdown()
        def _sd():
            W.quiesce()
            W.phase = "shutdown"
            W.emit("shutdown0")
            yield
            W.read_reports()
            W.phase = "done"
            W.emit("shutdown1", tasks=W.snap())
            if W.serve_i + 1 < len(W.spec["serves"]):
                W.serve_i += 1
            W.settick(W.tick() + 1)

        async def main():
            d = asyncio.create_task(W.drainer())
            try:
                await s.serve()
            finally:
                d.cancel()

        while True:
            exc = "none"
            try:
                asyncio.run(main())
            except Hang:
                raise
            except Exception as e:
                exc = type(e).__name__
                self.err = repr(e)
            self.emit("served", exc=exc, isalive=bool(s.scheduler.is_alive))
            if not self.spec["serves"][self.exec_i].get("more") or self.exec_i == self.serve_i:
                break
        self.settick(self.tick() + 1)
        self.read_reports()
        log = [[r.task_name, r.action, ticks(r.created)] for r in self.repo.filter_by().all()][len(hist):]
        self.emit("log", log=log)

    def config_event(self):
        c = self.cfg
        tasks = {}
        for n, t in self.tspec.items():
            h = {a: -1 for a in ("run", "success", "fail", "inaction", "terminate", "crash")}
            s0, m = "none", -1
            for act, k in t["hist"]:
                h[act] = max(h[act], k)
                if k >= m:
                    s0, m = act, k
            tasks[n] = {k: t[k] for k in ("x", "p", "m", "to", "ton", "perm", "su", "sd", "bad", "dis", "c0", "e0")}
            tasks[n].update(h0=h, s0=s0, late=t.get("late", False))
        return {"tasks": tasks, "multi": c["multi"], "maxproc": c["maxproc"], "timeout": c["timeout"], "instant": c["instant"],
                "silcond": c["silcond"], "silpre": c["silpre"], "shutcyc": c["shutcyc"], "now": c.get("now", 100)}


def with_bad(func, x):
    if asyncio.iscoroutinefunction(func):
        async def f(run="none", tag="-", zbad=None):
            return await func(run, tag)
    elif x == "thread":
        def f(run="none", tag="-", flag=None, zbad=None):
            return func(run, tag, flag)
    else:
        def f(run="none", tag="-", zbad=None):
            return func(run, tag)
    return f


def wait_release(W, rid):
    path = os.path.join(W.dir, rid)
    while not os.path.exists(path):
        if os.getppid() != W.pid:
            os._exit(9)
        time.sleep(0.001)


def proc_body(W, run, tag):
    from rocketry.exc import TaskInactionException, TaskTerminationException
    r = W.runs.get(run)
    time.sleep(0.02)       # until the record of the start has left this process (see DESIGN.md)
    W.report(e="b0", rid=run, tag=str(tag))
    wait_release(W, run)
    plan = r["plan"]
    out = plan["out"]
    W.report(e="b1", rid=run, out=out, ret=repr(plan["ret"]) if out == "ok" else "none")
    if out == "ok":
        return plan["ret"]
    if out == "inact":
        raise TaskInactionException("x")
    if out == "selfterm":
        raise TaskTerminationException("x")
    return fail(plan)


def fail(plan):
    """The run fails: in its body, in the callback for its success (after returning), or in both its body and the callback for it"""
    cb = plan.get("cb", "none")
    if cb == "success":
        return MARK
    raise ValueError(MARK if cb == "failure" else "planned")


def run_world(spec, scratch, limit=60, on_hang=None):
    """-> {"cfg":…, "ev":[…]}"""
    import multiprocessing
    w = World(spec, scratch)

    def trace():
        return {"cfg": w.config_event(), "ev": w.ev, "err": w.err}

    def alarm(*a):
        # no way to go on from here: report what there is and leave
        w.emit("hang")
        for p in multiprocessing.active_children():
            p.kill()
        shutil.rmtree(w.dir, ignore_errors=True)
        on_hang(trace())
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        w.run()
    except Hang:
        alarm()
    finally:
        signal.alarm(0)
        # let go of everything that may be left
        for rid, r in w.runs.items():
            r["rel"] = True
            if r["x"] == "process":
                try:
                    open(os.path.join(w.dir, rid), "w").close()
                except OSError:
                    pass
        for p in multiprocessing.active_children():
            p.join(2)
            if p.is_alive():
                p.kill()
        os.close(w.repfd)
        shutil.rmtree(w.dir, ignore_errors=True)
    return trace()
