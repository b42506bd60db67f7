"""Hooks and callbacks: sessions with hooks of all kinds. Judged by spec/Hooks.tla."""
import functools, itertools, json, logging, os, random, time, warnings
from purelib import call, collect
from psess import loggers, unlog

COUNT = itertools.count()
BOX = {}


def put(**e):
    fd = os.open(BOX["file"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(e) + "\n").encode())
    os.close(fd)


def make_hook(R, kind, w, h, s=None):
    from rocketry.args import Session, Task
    if w == "exec":
        def pre(task):
            bad = [h, task.name] in BOX["bad"]
            put(e="hook", w=w, h=h, p="pre", t=task.name, raises=bad)
            if bad:
                raise RuntimeError("planned")

        def post(x, task):
            put(e="hook", w=w, h=h, p="post", t=task.name, exc="none" if x == (None, None, None) else
                x[0].__name__ if x and x[0] is type(x[1]) and x[2] is not None else f"?{x!r}")

        def plain(extra=0, task=Task()):
            pre(task)

        def gen(extra=0, task=Task()):
            pre(task)
            x = yield
            post(x, task)

        def short(extra=0, task=Task()):
            pre(task)
            return
            yield
    elif w == "init":
        def plain(extra=0):
            put(e="hook", w=w, h=h, p="pre", s=s)

        def gen(extra=0, task=Task()):
            put(e="hook", w=w, h=h, p="pre", s=s)
            yield
            put(e="hook", w=w, h=h, p="post", s=s, t=task.name)

        def short(extra=0):
            plain()
            return
            yield
    else:
        def note(p, session):
            put(e="hook", w=w, h=h, p=p, mine=session is BOX["s"], n=getattr(session.scheduler, "n_cycles", -1))

        def plain(extra=0, session=Session()):
            note("pre", session)

        def gen(extra=0, session=Session()):
            note("pre", session)
            yield
            note("post", session)

        def short(extra=0, session=Session()):
            note("pre", session)
            return
            yield
    f = {"plain": plain, "gen": gen, "short": short}[kind]
    return functools.partial(f, extra=1) if R.random() < .2 else f


def body(name, out):
    from rocketry.exc import TaskInactionException
    put(e="body", t=name)
    if name in BOX["slow"]:
        time.sleep(.002)
    put(e="end", t=name, out=out)
    if out == "fail":
        raise RuntimeError("planned")
    if out == "inaction":
        raise TaskInactionException()
    return "value"


def classes():
    from rocketry.core import Task

    class Own(Task):
        out: str = ""

        def execute(self):
            return body(self.name, self.out)

        def process_success(self, output):
            put(e="cb", t=self.name, w="success", v=str(output))

        def process_failure(self, exc_type, exc_val, exc_tb):
            put(e="cb", t=self.name, w="failure", v=exc_type.__name__)

        def process_finish(self, status):
            put(e="cb", t=self.name, w="finish", v=str(status))

        def get_default_name(self, **kwargs):
            return "own"
    return Own


def scenario(R, scratch):
    from rocketry import Session
    from rocketry.conditions import FuncCond, SchedulerCycles
    u = next(COUNT)
    log = f"vh{os.getpid()}x{u}"
    loggers(log)
    conf = dict(task_logger_basename=log, scheduler_logger_basename=log + "s", cycle_sleep=None, max_process_count=100, silence_task_prerun=True)
    s = Session(config=dict(conf, execution=R.choice(["main", "async", "thread"]), shut_cond=SchedulerCycles() >= R.choice([1, 2, 3])))
    other = Session(config=conf)
    BOX.update(file=os.path.join(scratch, f"ev{u}.jsonl"), s=s, bad=[], slow=set())
    hooks = {}
    for w in ("startup", "cycle", "shutdown", "exec"):
        ks = [R.choice(["plain", "gen", "gen", "short"]) for _ in range(R.choice([0, 1, 2, 3]))]
        if w != "exec":
            ks = ["gen"] + ks
        hooks[w] = ks
        for h, k in enumerate(ks, 1):
            {"startup": s.hook_startup, "cycle": s.hook_scheduler_cycle, "shutdown": s.hook_shutdown, "exec": s.hook_task_execute}[w]()(make_hook(R, k, w, h))
    inits = {}
    for n, S in (("s", s), ("other", other)):
        inits[n] = [R.choice(["plain", "gen", "short"]) for _ in range(R.choice([0, 1, 2]))]
        for h, k in enumerate(inits[n], 1):
            S.hook_task_init()(make_hook(R, k, "init", h, n))
    R.choice([s, other]).set_as_default()
    ts, Own = {}, classes()
    for n in ["a", "b", "c", "d"][:R.choice([1, 2, 3, 4])]:
        if R.random() < .2:
            other.create_task(func=lambda: None, name=n, execution="main")
            put(e="make", s="other", t=n, ok=True)
        ex = R.choice(["main", "main", "async", "thread", "process"])
        out = R.choice(["success", "success", "fail", "inaction"])
        when = R.choice(["cycle", "cycle", "cycle", "startup", "shutdown"])
        cls = R.random() < .3

        def cond(n=n):
            put(e="cond", t=n)
            return random.random() < .7
        kw = dict(name=n, execution=ex, start_cond=FuncCond(cond), **({"on_startup": True} if when == "startup" else {"on_shutdown": True} if when == "shutdown" else {}))
        if cls:
            Own(session=s, out=out, **kw)
        else:
            a = "async " if ex in ("main", "async") and R.random() < .5 else ""
            ns = {"body": body}
            exec(f"{a}def fun():\n    return body({n!r}, {out!r})\n", ns)
            s.create_task(func=ns["fun"], **kw)
        put(e="make", s="s", t=n, ok=True)
        if R.random() < .1:
            try:
                s.create_task(func=lambda: None, name=n, execution="main")
                raise AssertionError("made twice")
            except ValueError:
                put(e="make", s="s", t=n, ok=False)
        ts[n] = {"ex": ex, "when": when, "cls": cls}
        if R.random() < .3:
            BOX["slow"].add(n)
        if hooks["exec"] and R.random() < .2:
            BOX["bad"].append([R.randrange(1, len(hooks["exec"]) + 1), n])
    errs = [call(s.start, 30)[1] for _ in range(R.choice([1, 1, 2]))]
    ev = [json.loads(x) for x in open(BOX["file"])]
    os.unlink(BOX["file"])
    unlog(log)
    expect = {}
    for n in ts:
        last = [x for x in ev if x.get("t") == n and (x["e"] == "end" or x["e"] == "hook" and x.get("raises"))]
        expect[n] = "none" if not last else "fail" if last[-1]["e"] == "hook" else last[-1]["out"]
    return {"k": "hooks", "hooks": hooks, "inits": inits, "ts": ts, "ev": ev, "e": next((e for e in errs if e), ""),
            "status": {n: s[n].status or "none" for n in ts}, "expect": expect}


def run(case, scratch, on_hang):
    logging.raiseExceptions = False
    warnings.simplefilter("ignore")
    it = itertools.count()

    def one():
        R = random.Random(f"{case['seed']}/{next(it)}")
        random.seed(R.random())
        return scenario(R, scratch)
    return collect(one, case["n"])
