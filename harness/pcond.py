"""Conditions about tasks and the scheduler: sessions under a clock of the harness, with logs of earlier sessions, tasks that
start by the conditions themselves, and conditions asked along the way.  Judged by spec/Hist.tla."""
import asyncio, datetime, itertools, logging, os, random
import ptime
from purelib import call, inst, off, uninst

TD = datetime.timedelta
BASES = [datetime.datetime(2024, 2, 26, 9, 58), datetime.datetime(2023, 12, 30, 23, 50), datetime.datetime(2024, 3, 29, 12), datetime.datetime(2025, 6, 1, 0, 1),
         datetime.datetime(2024, 1, 1, 0, 0, 30)]
COUNT = itertools.count()
ACTS = {"started": ["run"], "failed": ["fail"], "succeeded": ["success"], "finished": ["success", "fail", "terminate"],
        "terminated": ["terminate"], "inacted": ["inaction"]}
CLS = {"started": "TaskStarted", "failed": "TaskFailed", "succeeded": "TaskSucceeded", "finished": "TaskFinished", "terminated": "TaskTerminated",
       "inacted": "TaskInacted"}
OPS = {"eq": "__eq__", "ne": "__ne__", "lt": "__lt__", "le": "__le__", "gt": "__gt__", "ge": "__ge__"}
LY = {"minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly", "second": "secondly"}
THIS = {"minute": "this minute", "hour": "this hour", "day": "today", "week": "this week", "month": "this month"}
NONE = {"op": "none"}


class Gen:
    def __init__(self, R, scale, tasks):
        self.R, self.scale, self.tasks = R, scale, tasks
        self.seen = []      # periods used, for times around their ends
        self.deltas = []
        self.kinds = {"s": ["minute", "hour", "second"], "m": ["hour", "day", "minute"], "h": ["day", "week", "month"], "d": ["week", "month", "year"]}[scale]

    def delta(self):
        """-> (timedelta, text)"""
        R = self.R
        unit, name = {"s": ("seconds", "seconds"), "m": ("minutes", "min"), "h": ("hours", "hours"), "d": ("days", "days")}[self.scale]
        n = R.choice([1, 2, 3, 5, 10, 30])
        self.deltas.append(TD(**{unit: n}))
        return TD(**{unit: n}), f"{n} {name}"

    def comps(self, zero=.5):
        R = self.R
        f = R.random()
        if f < zero:
            return R.choice([[], [], [{"op": "eq", "v": 0}], [{"op": "gt", "v": 0}], [{"op": "ge", "v": 1}]])
        if f < .85:
            return [{"op": R.choice(list(OPS)), "v": R.choice([0, 1, 1, 2, 3])}]
        a = R.choice([0, 1, 2])
        return R.choice([[{"op": "ge", "v": a}, {"op": "le", "v": a + R.choice([0, 1, 2])}], [{"op": "gt", "v": 0}, {"op": "lt", "v": 3}]])

    def put(self, cond, comps):
        if self.R.random() < .25 and hasattr(cond, "_comps"):       # comparing does not change what is compared
            getattr(cond, self.R.choice(list(OPS.values())))(self.R.choice([0, 2, 5]))
        for c in comps:
            cond = getattr(cond, OPS[c["op"]])(c["v"])
        return cond

    def status(self):
        from rocketry import conditions as C, conds
        from rocketry.conditions.task import TaskTerminated, TaskInacted
        from rocketry.core.time import TimeDelta
        R = self.R
        name = R.choice(list(ACTS))
        t = R.choice(["", *self.tasks])
        cls = {"terminated": TaskTerminated, "inacted": TaskInacted}.get(name) or getattr(C, CLS[name])
        comps = self.comps()
        J = {"c": "status", "t": t, "acts": ACTS[name], "comps": comps}
        how = R.choice(["class", "class", "api", "text"])
        f = R.random()
        if how == "text" and comps in ([], ):
            pre = f"task '{t}' " if t else ""
            if f < .2:
                return {**J, "p": NONE}, f"{pre}has {name}"
            if f < .5:
                d, s = self.delta()
                return {**J, "p": {"op": "delta", "past": off(d)}}, f"{pre}has {name} {R.choice(['in ', ''])}past {s}"
            p, v = ptime.anchored(R, [k for k in self.kinds if k in THIS] or ["day"], txt=True, modes=["between", "after", "before", "full"])
            k, m, a, b = v
            s = {"between": f" between {a} and {b}", "after": f" after {a}", "before": f" before {b}", "full": ""}[m]
            return {**J, "p": p}, f"{pre}has {name} {THIS[k]}{s}"
        if how == "api" and name in ("started", "failed", "succeeded", "finished"):
            w = getattr(conds, name)
            w = w(t) if t else w
            if f < .3:
                return {**J, "p": NONE}, self.put(w.get_cond(), comps)
            p, v = ptime.anchored(R, [k for k in self.kinds if k in THIS] or ["day"])
            k, m, a, b = v
            u = getattr(w, "this_" + k)
            o = {"between": lambda: u.between(a, b), "after": lambda: u.after(a), "before": lambda: u.before(b), "at": lambda: u.on(a),
                 "starting": lambda: u.starting(a), "full": lambda: u.get_cond()}[m]()
            return {**J, "p": p}, self.put(o, comps)
        kw = {"task": t} if t else {}
        if f < .25:
            return {**J, "p": NONE}, self.put(cls(**kw), comps)
        if f < .55:
            d, s = self.delta()
            return {**J, "p": {"op": "delta", "past": off(d)}}, self.put(cls(period=TimeDelta(R.choice([d, s])), **kw), comps)
        p, v = ptime.anchored(R, self.kinds)
        return {**J, "p": p}, self.put(cls(period=ptime.build(v), **kw), comps)

    def execu(self):
        from rocketry import conds
        from rocketry.conditions import TaskExecutable
        R = self.R
        J = {"c": "exec", "t": "", "retries": 0}
        f = R.random()
        if f < .15:
            d, s = self.delta()
            return {**J, "p": {"op": "delta", "past": off(d)}}, conds.every(s, based="finish")
        if f < .3:
            n = R.choice([1, 2, 3])
            p, v = ptime.anchored(R, self.kinds)
            return {**J, "retries": n, "p": p}, TaskExecutable(period=ptime.build(v), retries=n)
        kinds = [k for k in self.kinds if k in LY]
        if R.random() < .45:
            p, v = ptime.anchored(R, [k for k in kinds if k != "second"] or ["day"], txt=True)
            k, m, a, b = v
            s = {"between": f" between {a} and {b}", "after": f" after {a}", "before": f" before {b}", "at": f" on {a}", "full": "", "starting": f" starting {a}"}[m]
            return {**J, "p": p}, LY[k] + s
        p, v = ptime.anchored(R, kinds)
        k, m, a, b = v
        u = getattr(conds, LY[k])
        return {**J, "p": p}, {"between": lambda: u.between(a, b), "after": lambda: u.after(a), "before": lambda: u.before(b), "at": lambda: u.at(a),
                               "full": lambda: u, "starting": lambda: u.starting(a)}[m]()

    def every(self):
        from rocketry import conds
        R = self.R
        d, s = self.delta()
        P = {"op": "delta", "past": off(d)}
        b = R.choice(["run", "run", "success", "fail", "text"])
        a = {"run": "run", "text": "run"}.get(b, b)
        return {"c": "status", "t": "", "acts": [a], "p": P, "comps": [{"op": "eq", "v": 0}]}, f"every {s}" if b == "text" else conds.every(s, based=b)

    def cron(self):
        from rocketry import conds
        R = self.R
        st = "*"
        fs = {"s": ["*", "*/2", "0-30/3,59"], "m": ["*/10", "0,30", "5-55/10"], "h": ["0", "0", "30"], "d": ["0"]}[self.scale]
        hs = {"s": ["*"], "m": ["*", "9-17", "10"], "h": ["*", "*/6", "0,12"], "d": ["0", "12"]}[self.scale]
        ds = {"s": ["*"], "m": ["*"], "h": ["*", "1", "*/2"], "d": ["*", "1", "15"]}[self.scale]
        ws = {"s": ["*"], "m": ["*"], "h": ["*", "1-5", "0"], "d": ["*", "1", "6,0"]}[self.scale]
        txt = [R.choice(fs), R.choice(hs), R.choice(ds), "*", R.choice(ws)]
        p = {"op": "cron"}
        for f, x in zip(ptime.FIELDS, txt):
            items = []
            for it in x.split(","):
                a, _, s = it.partition("/")
                lo, _, hi = a.partition("-")
                items.append({"from": -1 if a == "*" else int(lo), "to": -1 if a == "*" else int(hi or lo), "step": int(s or 1), "steps": bool(s)})
            p[f] = items
        e = " ".join(txt)
        return {"c": "runnable", "t": "", "p": p}, conds.cron(e) if R.random() < .5 else f"cron {e}"

    def runnable(self):
        from rocketry.conditions import TaskRunnable
        p, v = ptime.anchored(self.R, self.kinds)
        return {"c": "runnable", "t": "", "p": p}, TaskRunnable(period=ptime.build(v))

    def depend(self):
        from rocketry import conds
        from rocketry.conditions import DependSuccess, DependFailure, DependFinish
        R = self.R
        k = R.choice(["success", "fail", "finish"])
        acts = {"success": ["success"], "fail": ["fail"], "finish": ["success", "fail"]}[k]
        one = lambda d, t="": {"c": "depend", "t": t, "dep": d, "acts": acts}
        word = {"success": R.choice([" succeeded", ""]), "fail": " failed", "finish": " finished"}[k]
        f = R.random()
        if f < .2:
            t, d = R.sample(self.tasks, 2)
            return one(d, t), {"success": DependSuccess, "fail": DependFailure, "finish": DependFinish}[k](task=t, depend_task=d)
        if f < .6:
            d = R.choice(self.tasks)
            return one(d), getattr(conds, "after_" + k)(d) if R.random() < .5 else f"after task '{d}'{word}"
        ds = R.sample(self.tasks, R.choice([2, 2, 3]))
        q = R.choice(["all", "any"])
        J = {"c": q, "xs": [one(d) for d in ds]}
        if R.random() < .5:
            return J, getattr(conds, f"after_{q}_{k}")(*ds)
        return J, f"after {'any ' if q == 'any' else ''}tasks '" + "', '".join(ds) + f"'{word}"

    def retry(self):
        from rocketry import conds
        from rocketry.conditions import Retry
        n = self.R.choice([0, 1, 1, 2, 3, 5, 8, -1])
        J = {"c": "retry", "t": "", "n": n}
        return J, (conds.retry if self.R.random() < .5 else Retry(None)) if n == -1 else self.R.choice([conds.retry, Retry])(n)

    def running(self):
        from rocketry import conds
        from rocketry.conditions import TaskRunning
        R = self.R
        t = R.choice(["", *self.tasks])
        J = {"c": "running", "t": t, "near": [0, 0, 0], "far": [], "comps": []}
        w = conds.running(t) if t else conds.running
        f = R.random()
        if f < .15 and t:
            return J, f"{R.choice(['while ', ''])}task '{t}' is running"
        if f < .45:
            c = self.comps()
            return {**J, "comps": c}, self.put(w.get_cond() if not c or R.random() < .5 else w, c)
        (d1, s1), (d2, s2) = sorted([self.delta(), self.delta()])
        if f < .65:
            return {**J, "near": off(d1)}, w.more_than(s1)
        if f < .85:
            return {**J, "far": off(d1)}, w.less_than(s1)
        return {**J, "near": off(d1), "far": off(d2)}, w.between(s1, s2)

    def sched(self):
        from rocketry import conds
        from rocketry.conditions import SchedulerCycles
        R = self.R
        f = R.random()
        if f < .5:
            n = R.choice([0, 1, 2, 3, 5, 8])
            o = R.choice(["gt", "lt", "eq", "ge"])
            J = {"c": "cycles", "comps": [{"op": o, "v": n}]}
            if o == "ge":
                return J, SchedulerCycles() >= n
            if o in ("gt", "lt") and R.random() < .5:
                return J, conds.scheduler_cycles(**{{"gt": "more_than", "lt": "less_than"}[o]: n})
            return J, f"scheduler has {dict(gt='more than ', lt='less than ', eq='')[o]}{n} cycles"
        (d1, s1), (d2, s2) = sorted([self.delta(), self.delta()])
        J = {"c": "started", "near": [0, 0, 0], "far": []}
        g = R.random()
        if g < .2:
            return {"c": "not", "x": {**J, "far": off(d1)}}, f"scheduler has run over {s1}"
        if g < .4:
            return {**J, "far": off(d1)}, f"scheduler started {s1} ago"
        if g < .6:
            return {**J, "near": off(d1)}, conds.scheduler_running(more_than=s1)
        if g < .8:
            return {**J, "far": off(d1)}, conds.scheduler_running(less_than=s1)
        return {**J, "near": off(d1), "far": off(d2)}, conds.scheduler_running(s1, s2)

    def time(self):
        p, v = ptime.anchored(self.R, [k for k in self.kinds])
        return {"c": "time", "p": p}, ptime.build_cond(v, self.R)

    def clock(self):
        """That the time is in a period: of one kind, combined, or by cron"""
        from rocketry.conditions import IsPeriod
        from rocketry.time import Cron
        R = self.R
        f = R.random()
        if f < .12:
            J, o = self.cron()
            e = o.partition(" ")[2] if isinstance(o, str) else None
            if e:
                return {"c": "time", "p": J["p"]}, IsPeriod(period=Cron(*e.split()) if R.random() < .5 else Cron(**dict(zip(["minute", "hour", "day_of_month", "month", "day_of_week"], e.split()))))
        if f < .3:
            p, o, leaves = ptime.combo(R)
            self.seen += leaves
            return {"c": "time", "p": p}, IsPeriod(period=o)
        kinds = self.kinds + ["hour", "day"]
        if f < .6:
            while True:
                p, v = ptime.anchored(R, [k for k in kinds if k not in ("second", "year")], txt=True, modes=["between", "after", "before", "at"])
                if v[1] != "at" or v[0] in ("week", "month"):
                    break
            o = ptime.text(v)
        else:
            p, v = ptime.anchored(R, kinds)
            o = IsPeriod(period=ptime.build(v)) if R.random() < .3 else ptime.build_cond(v, R)
        self.seen.append(p)
        return {"c": "time", "p": p}, o

    def declare(self):
        """Conditions that are checked by tasks of their own"""
        import re
        from rocketry.args import Task
        from rocketry.conditions import TaskCond
        R = self.R
        self.of, self.returned, self.texts = {}, {}, []
        for f in R.sample(["ok", "up", "fine"], R.choice([1, 2])):
            g = R.random()
            if g < .4:
                P, kw = {"op": "always"}, R.choice([{}, {"active_time": "always"}])
            elif g < .8:
                d, t = self.delta()
                P, kw = {"op": "delta", "past": off(d)}, {"active_time": f"past {t}"}
            else:
                P, v = ptime.anchored(R, ["hour", "day"], txt=True, modes=["between", "after", "before"])
                kw = {"active_time": ptime.text(v)}
            plan = {pl: itertools.cycle([R.choice([True, True, False, 1, 0, "yes", "", None, ValueError]) for _ in range(R.choice([1, 2, 3, 4]))]) for pl in ("", "x", "y")}
            x = R.choice(["main", "async"])

            def body(place="", task=Task(), f=f, plan=plan):
                self.of[task.name] = f"{f}/{place}"
                v = next(plan[place])
                if v is ValueError:
                    raise v("planned")
                self.returned[f"{f}/{place}"] = bool(v)
                return v
            body.__name__ = f"check_{f}"
            if x == "async":
                def inner(b=body):
                    async def abody(place="", task=Task()):
                        await asyncio.sleep(0)
                        return b(place, task)
                    abody.__name__ = b.__name__
                    return abody
                body = inner()
            places = R.choice([[""], ["x"], ["x", "y"]])
            syntax = f"it is {f}" if places == [""] else re.compile(f"it is {f} at (?P<place>.)")
            kw.update(syntax=syntax, session=self.session, execution=x, start_cond=R.choice([f"every {self.delta()[1]}", "always true"]))
            if R.random() < .5:
                TaskCond(func=body, **kw)
            else:
                TaskCond(**kw)(body)
            self.texts += [({"c": "bytask", "t": f"{f}/{pl}", "p": P}, f"it is {f}" + (f" at {pl}" if pl else "")) for pl in places]

    def bytask(self):
        return self.R.choice(self.texts)

    def tree(self, leaves, depth=2, text=False):
        """A condition made of the kinds in leaves -> (JSON, condition or text)"""
        from rocketry.conditions import All, Any, Not
        R = self.R
        if depth == 0 or R.random() < .6:
            return getattr(self, R.choice(leaves))()
        k = R.choice(["all", "any", "not", "all", "any"])
        if k == "not":
            J, o = self.tree(leaves, depth - 1)
            return {"c": "not", "x": J}, ~self.obj(o)
        xs = [self.tree(leaves, depth - 1) for _ in range(R.choice([2, 2, 3]))]
        J = {"c": k, "xs": [x[0] for x in xs]}
        if all(isinstance(x[1], str) for x in xs):
            sep = " & " if k == "all" else " | "
            return J, "(" + sep.join(x[1] for x in xs) + ")"
        os_ = [self.obj(x[1]) for x in xs]
        if R.random() < .5:
            o = os_[0]
            for x in os_[1:]:
                o = o & x if k == "all" else o | x
            return J, o
        return J, (All if k == "all" else Any)(*os_)

    def obj(self, o):
        from rocketry.parse import parse_condition
        return parse_condition(o, session=self.session) if isinstance(o, str) else o


PROFILES = {  # what: (kinds of start conditions, kinds of questions)
    "status": (["const", "every", "execu"], ["status", "status", "status", "time"]),
    "period": (["execu", "every", "cron", "runnable", "execu"], ["execu", "every", "cron", "runnable"]),
    "depend": (["depend", "depend", "const", "every"], ["depend"]),
    "retry": (["retry", "every", "const"], ["retry"]),
    "running": (["const", "every"], ["running"]),
    "sched": (["const", "sched"], ["sched"]),
    "bytask": (["bytask", "bytask", "const"], ["bytask"]),
    "clock": (["clock", "clock", "clock", "const"], ["clock"]),
    "mixed": (["execu", "depend", "retry", "status", "every"], ["status", "execu", "every", "depend", "retry", "running", "sched", "time", "cron"]),
}


def scenario(R, profile):
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    from rocketry import Session
    from rocketry.core.condition import BaseCondition
    from rocketry.log import MinimalRecord
    from rocketry.log import MinimalRunRecord, TaskRunRecord
    from rocketry.log.log_record import TaskLogRecord
    from rocketry.exc import TaskInactionException, TaskTerminationException
    from rocketry.conditions import SchedulerCycles, AlwaysFalse, AlwaysTrue
    starts, asks = PROFILES[profile]
    logs = R.random() < .25
    if logs and profile == "mixed":     # without ids in the log the code has to guess
        asks = [a for a in asks if a != "running"]
    scale = R.choice("smmhhd") if profile != "running" else R.choice("smh")
    unit = {"s": TD(seconds=1), "m": TD(minutes=1), "h": TD(hours=1), "d": TD(days=1)}[scale]
    base = R.choice(BASES)
    zone = None if R.random() < .7 else datetime.timezone(TD(hours=R.choice([-7, 5])))
    names = ["a", "b", "c"][:R.choice([2, 3]) if profile not in ("depend", "mixed") else 3]
    G = Gen(R, scale, names)
    epoch = datetime.datetime(1970, 1, 1)
    box = {"now": base + TD(milliseconds=7), "cyc": 0}

    def stamp(dt):
        """wall clock of the session -> timestamp"""
        return round((dt.replace(tzinfo=zone or datetime.timezone.utc) - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) / TD(milliseconds=1)) / 1000

    def wall(ts):
        return (datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + TD(milliseconds=round(ts * 1000))).astimezone(zone or datetime.timezone.utc).replace(tzinfo=None)

    def tick(ms=1):
        box["now"] += TD(milliseconds=ms)
    h, qs, last = [], [], {}
    ids = itertools.count(1)
    log = f"vc{os.getpid()}x{next(COUNT)}"
    model = R.choice([MinimalRecord, TaskLogRecord, TaskRunRecord] if profile != "running" else [MinimalRunRecord, TaskRunRecord])
    repo = MemoryRepo(model=model)
    lg = logging.getLogger(log)
    lg.setLevel(logging.INFO)
    lg.propagate = False

    class H(logging.Handler):
        def emit(self, r):
            h.append({"t": r.task_name, "a": r.action, "at": inst(wall(r.created)), "rid": str(getattr(r, "run_id", None) or "-")})
            if profile == "bytask":
                h[-1]["v"] = G.returned.get(G.of.get(r.task_name), False)
            q = last.get(r.task_name)
            if r.action == "run" and q and q["started"] == "no":
                q["started"] = "yes"
    lg.handlers = [RepoHandler(repo), H()]
    sl = logging.getLogger(log + "s")
    sl.propagate = False
    sl.handlers = [logging.NullHandler()]

    def old(n, a, t, rid):
        rec = {"task_name": n, "action": a, "created": stamp(t)}
        if model is not MinimalRecord:
            rec.update(run_id=rid, name="x", levelname="INFO", levelno=20, pathname="p", filename="f", module="m", lineno=1, message="-",
                       relativeCreated=1, msecs=1, msg="-", process=1, processName="p", thread=1, threadName="t", funcName="f", asctime="-", formatted_message="-",
                       start=None, end=None)
        repo.add(rec)
        h.append({"t": n, "a": a, "at": inst(t), "rid": rid if profile == "running" else "-"})
    # the log of earlier sessions
    if R.random() < .6:
        t = base - R.choice([1, 3, 10]) * unit * 3
        many = profile == "retry" and R.random() < .5      # a long row of failures
        for _ in range(R.randrange(1, 12) if not many else 20):
            step = unit * R.choice([0, 0, .25, .5, 1, 2, 5]) if not many else TD(0)
            t += TD(milliseconds=1) * (profile != "depend" or R.random() < .5) + step      # tasks that end at one time
            if t >= base:
                break
            n, a = R.choice(names), R.choice(["run", "run", "success", "fail", "fail", "inaction", "terminate", "crash"])
            if many and R.random() < .8:
                n, a = names[0], "fail"
            t = t.replace(microsecond=t.microsecond // 1000 * 1000)
            rid = f"old{next(ids)}"
            old(n, a if profile != "running" else "run", t, rid)
            if profile == "running":        # which run a record belongs to matters: whole runs
                t += TD(milliseconds=1)
                old(n, R.choice(["success", "fail", "terminate"]), t, rid)
    s = Session(config=dict(task_logger_basename=log, scheduler_logger_basename=log + "s", time_func=lambda: stamp(box["now"]), cycle_sleep=None,
                            func_run_id=lambda *a: f"n{next(ids)}", force_status_from_logs=logs, timeout="never" if False else TD(days=999),
                            silence_cond_check=False, shut_cond=SchedulerCycles() >= 10 ** 6, **({"timezone": zone} if zone else {})))
    if R.random() < .6:
        s.set_as_default()
    else:       # another session in the way
        Session(config=dict(task_logger_basename=log + "o", scheduler_logger_basename=log + "s", time_func=lambda: 1e9, force_status_from_logs=not logs,
                            multilaunch=True, timezone=datetime.timezone(TD(hours=9)))).set_as_default()
    G.session = s

    def const(self=None):
        v = R.random() < .6
        return {"c": "const", "v": v}, AlwaysTrue() if v else AlwaysFalse()
    G.const = const

    class Asked(BaseCondition):
        """Passes the question on and notes the answer"""
        def __init__(self, name, J, cond):
            self.name, self.J, self.cond = name, J, cond

        def observe(self, **kw):
            tick()
            q = {"n": len(h), "now": inst(box["now"]), "cycles": s.scheduler.n_cycles, "t": self.name, "x": self.J,
                 "started": "no" if s[self.name].multilaunch or not s[self.name].is_alive() else "-"}
            r, e = call(lambda: self.cond.observe(**kw))
            q["r"] = {"e": e, "v": bool(r)} if not e else {"e": e}
            qs.append(q)
            last[self.name] = q
            return False if e else r

        def __str__(self):
            return "asked"
    if profile == "bytask":
        G.declare()

    def body_for(n, plan, x):
        it = itertools.cycle(plan)

        def out(o):
            if o == "fail":
                raise ValueError("planned")
            if o == "inaction":
                raise TaskInactionException("planned")
            if o == "terminate":
                raise TaskTerminationException("planned")
            return 1

        if x == "main":
            def body():
                o, d = next(it)
                tick()
                box["now"] += unit * d
                return out(o)
        else:
            async def body():
                o, d = next(it)
                k = box["cyc"] + d
                while box["cyc"] < k and not box.get("end"):
                    await asyncio.sleep(0)
                tick()
                return out(o)
        return body
    order = R.sample(names, len(names))
    for n in order:
        J, o = G.tree(starts, 1) if R.random() < .8 else (lambda a: a)(const())
        x = R.choice(["main", "main", "async"]) if profile != "running" else R.choice(["async", "async", "main"])
        plan = [(R.choice(["success", "success", "fail", "fail", "inaction", "terminate"]), R.choice([0, 0, .25, .5, 1, 2]) if x == "main" else R.choice([1, 1, 2, 3, 5]))
                for _ in range(R.choice([1, 2, 3, 4]))]
        if profile == "retry":
            plan = [(R.choice(["fail", "fail", "fail", "success", "inaction"]), d) for _, d in plan]
        s.create_task(func=body_for(n, plan, x), name=n, execution=x, start_cond=Asked(n, J, G.obj(o)), multilaunch=profile == "running" and R.random() < .5)
    questions = []
    for _ in range(5):
        J, o = G.tree(asks, 2)
        questions.append((R.choice(names), J, G.obj(o)))
    ncyc = R.randrange(4, 14)
    info = {}

    @s.hook_startup()
    def _su():
        tick()
        info["startup"] = inst(box["now"])
        yield

    @s.hook_scheduler_cycle()
    def _cy():
        box["now"] += unit * R.choice([0, .25, .5, 1, 1, 2, 3, 5]) if R.random() < .95 else unit * 40
        if profile == "clock" and R.random() < .7:      # to an end of one of the periods
            t = ptime.instant(R, G.seen)
            days = box["now"].date() - t.date()
            t += days + TD(days=R.choice([0, 0, 1])) if R.random() < .7 else TD(days=round(days / TD(days=7)) * 7 + 7)
            if box["now"] < t < box["now"] + TD(days=400):
                box["now"] = t
        box["now"] = box["now"].replace(microsecond=box["now"].microsecond // 1000 * 1000)
        tick(R.choice([0, 1, 1]) if profile == "clock" else 1)
        if profile in ("status", "period", "running", "sched", "bytask") and G.deltas and R.random() < .3:       # to an end of one of the time spans
            past = [r["at"] for r in h[-6:]] + [info["startup"]] * 3
            ends = [a for a in (uninst(p) + R.choice(G.deltas) for p in past) if a > box["now"]]
            if ends:
                box["now"] = min(ends) if R.random() < .5 else R.choice(ends)
        box["cyc"] += 1
        last.clear()
        for n, J, o in questions:
            if R.random() < .7:
                q = {"n": len(h), "now": inst(box["now"]), "cycles": s.scheduler.n_cycles, "t": n, "x": J, "started": "-"}
                r, e = call(lambda: o.observe(task=s[n], session=s))
                q["r"] = {"e": e, "v": bool(r)} if not e else {"e": e}
                qs.append(q)
        if box["cyc"] >= ncyc:
            s.shut_down()
        yield
        tick()
        if box["cyc"] >= ncyc:
            box["end"] = True
    _, e = call(lambda: asyncio.run(s.serve()), 20)
    lg.handlers = []
    if profile == "bytask":
        for r in h:
            r["t"] = G.of.get(r["t"], r["t"])
            r.setdefault("v", False)
    for q in qs:
        if q["n"] > 60:
            return None
    return {"k": "hist", "h": h, "qs": qs, "startup": info.get("startup", [0, 0, 0]), "e": e, "profile": profile, "logs": logs}


def run(case, scratch, on_hang):
    logging.raiseExceptions = False
    res = []
    for i in range(case["n"]):
        R = random.Random(f"{case['seed']}/{i}")
        try:
            x = scenario(R, case["what"])
        except Exception as e:      # the world could not even be set up
            if os.environ.get("VERIF_DEBUG"):
                raise
            x = {"k": "hist", "h": [], "qs": [], "startup": [0, 0, 0], "e": f"setup: {e!r}"[:300], "profile": case["what"], "seed": f"{case['seed']}/{i}"}
        if x:
            res.append(x)
    return res
