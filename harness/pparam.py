"""Parameters of runs: sessions in which parameters are set on all levels, requests made and tasks of all kinds run.
Judged by spec/Params.tla."""
import asyncio, itertools, json, logging, os, random, time
from purelib import call, collect

COUNT = itertools.count()
BOX = {}
NAMES = ["x", "y", "z", "w"]


def show(v):
    from rocketry.core import Task
    from rocketry import Session
    if isinstance(v, Task):
        return "task:" + v.name
    if isinstance(v, Session):
        return "session"
    return v if isinstance(v, str) else f"?{v!r}"


def result(k):
    return [f"r{k}", f"r{k}", None, 0, False][k % 5]


def body(name, kw):
    with open(BOX["file"], "a") as f:
        f.write(json.dumps([BOX["k"], name, {n: show(v) for n, v in kw.items()}]) + "\n")
    return result(BOX["k"])


class Gen:
    def __init__(self, R, tasks):
        self.R, self.tasks, self.n = R, tasks, itertools.count()

    def value(self, text=False):
        n = next(self.n)
        return f"v{n}" if text or self.R.random() < .75 else self.R.choice([None, None, 0, False, n])

    def default(self):
        return self.R.choice([[], [self.value()]])

    def arg(self, below, depth=2, plain=.3, text=False):
        """An argument that looks at most at the session's parameters in below -> (JSON, object, source of the object)"""
        from rocketry.args import Arg, EnvArg, FuncArg, Return, Session, SimpleArg, Task
        R = self.R
        if R.random() < plain:
            v = self.value(plain == 1)
            return {"k": "val", "v": show(v)}, v, repr(v)
        ks = ["simple", "arg", "arg", "ret", "env", "task", "session"] + (["func", "func", "pipe"] if depth and not text else [])
        k = R.choice(ks)
        if k == "simple":
            v = self.value()
            return {"k": k, "v": show(v)}, SimpleArg(v), f"SimpleArg({v!r})"
        if k == "task":
            return {"k": k}, Task(), "Task()"
        if k == "session":
            return {"k": k}, Session(), "Session()"
        d = self.default()
        ds = [show(v) for v in d]
        dd = (lambda cls, x: cls(x, default=d[0]) if d else cls(x))
        src = (lambda c, x: f"{c}({x!r}, default={d[0]!r})" if d else f"{c}({x!r})")
        if k == "arg":
            key = R.choice(below + ["missing"]) if below else "missing"
            return {"k": k, "key": key, "d": ds}, dd(Arg, key), src("Arg", key)
        if k == "ret":
            t = R.choice(self.tasks + ["none"])
            return {"k": k, "t": t, "d": ds}, dd(Return, t), src("Return", t)
        if k == "env":
            n = R.choice(["VERIF_A", "VERIF_E", "VERIF_NONE"])
            return {"k": k, "n": n, "d": ds}, dd(EnvArg, n), src("EnvArg", n)
        if k == "pipe":
            xs = [self.arg(below, depth - 1, 0) for _ in range(R.choice([2, 3]))]
            o = xs[0][1]
            for x in xs[1:]:
                o = o >> x[1]
            flat = []
            for x in xs:
                flat += x[0]["xs"] if x[0]["k"] == "pipe" else [x[0]]
            return {"k": k, "xs": flat}, o, ""
        ps = [self.arg(below, depth - 1, 0) for _ in range(R.choice([0, 1, 2]))]
        raises = "" if R.random() < .9 else R.choice(["KeyError", "ValueError"])
        f = f"f{next(self.n)}"
        ns = {"_show": show}
        ns.update({f"_d{i}": p[1] for i, p in enumerate(ps)})
        code = f"def {f}({', '.join(f'p{i}=_d{i}' for i in range(len(ps)))}):\n"
        code += f"    raise {raises}('planned')\n" if raises else f"    return '{f}(' + ''.join(_show(v) + ',' for v in [{', '.join(f'p{i}' for i in range(len(ps)))}]) + ')'\n"
        exec(code, ns)
        return ({"k": "func", "f": f, "ps": [p[0] for p in ps], "raises": raises},
                FuncArg(ns[f], **R.choice([{}, {"materialize": "pre"}, {"materialize": "post"}])), "")


def scenario(R, scratch):
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    from rocketry import Session
    from rocketry.conditions import FuncCond, SchedulerCycles
    from rocketry.core import Parameters
    from rocketry.log import MinimalRecord
    from rocketry.parameters import FuncParam
    from rocketry.tasks import CodeTask
    u = next(COUNT)
    log = f"vp{os.getpid()}x{u}"
    for n in (log, log + "s"):
        lg = logging.getLogger(n)
        lg.setLevel(logging.INFO)
        lg.propagate = False
        lg.handlers = [RepoHandler(MemoryRepo(model=MinimalRecord)) if n == log else logging.NullHandler()]
    BOX.update(file=os.path.join(scratch, f"seen{u}.jsonl"), k=0)
    os.environ["VERIF_A"] = "envA"
    os.environ["VERIF_E"] = ""
    os.environ.pop("VERIF_NONE", None)
    names = ["a", "b", "c"][:R.choice([2, 3])]
    G = Gen(R, names)
    s = Session(config=dict(task_logger_basename=log, scheduler_logger_basename=log + "s", cycle_sleep=None, silence_task_prerun=True,
                            param_materialize=R.choice(["pre", "post"]), shut_cond=SchedulerCycles() >= 10 ** 6))
    (s if R.random() < .6 else Session(parameters={n: "other" for n in NAMES})).set_as_default()
    mirror = {"s": {}, "t": {}}
    sp, tp, ts, ops = {}, {}, {}, []

    def sset(n, later):
        J, o, _ = G.arg([m for m in NAMES if m > n], plain=.4)
        if J["k"] == "func" and R.random() < .5:
            FuncParam(n, session=s)(o.func)
            o = dict(s.parameters.items())[n]
        elif R.random() < .5:
            s.parameters[n] = o
        else:
            s.parameters.update(R.choice([dict, Parameters])({n: o}))
        mirror["s"][n] = o
        if later:
            ops.append({"o": "sset", "n": n, "a": J})
        else:
            sp[n] = J
    for n in NAMES:
        if R.random() < .8:
            sset(n, False)
    flags = {}
    repo = logging.getLogger(log).handlers[0].repo

    def count(n):
        return sum(r.task_name == n for r in repo.collection)
    for n in names:
        kind = R.choice(["func", "func", "func", "path", "code", "cmd"])
        x = R.choice(["main", "main", "async", "thread", "thread", "process"])
        own = {m: G.arg(NAMES, text=kind in ("path",)) for m in R.sample(NAMES, R.choice([0, 0, 1, 1, 2]))}
        if kind == "cmd":
            own = {m: G.arg([], 0, 1) for m in own}
        sig, given = {}, {m: v[0] for m, v in own.items()}
        kw = kind in ("func", "path") and R.random() < .15
        t = {"name": n, "kind": kind, "x": x, "kw": kw}
        common = dict(name=n, execution=x, parameters=R.choice([dict, Parameters])({m: v[1] for m, v in own.items()}),
                      start_cond=FuncCond(lambda n=n: n in flags and not s[n].is_alive() and count(n) == flags[n]), session=s)
        if kind in ("func", "path"):
            order = sorted(R.sample(NAMES, R.choice([1, 2, 3])))
            if own and R.random() < .95:
                order = sorted({*order, *own})
            parts, ns, sigargs = [], {"_body": body}, {}
            for m in order:
                f = R.random()
                if f < .4:
                    sig[m] = {"d": []}
                    parts.append((0, m))
                elif f < .6:
                    v = G.value()
                    sig[m] = {"d": [show(v)]}
                    parts.append((1, f"{m}={v!r}"))
                else:
                    J, o, src = G.arg(NAMES, plain=0, text=kind == "path")
                    sig[m] = {"d": []}
                    sigargs[m] = J
                    ns["_d" + m] = o
                    parts.append((1, f"{m}={src}" if kind == "path" else f"{m}=_d{m}"))
            parts.sort()
            args = ", ".join(p[1] for p in parts) + (", **kw" if kw else "")
            if kw and R.random() < .5 or R.random() < .3:
                args = "*, " + args
            a = "async " if x in ("async", "main") and R.random() < .5 else ""
            inner = "{" + ", ".join(f"{m!r}: {m}" for m in order) + (", **kw" if kw else "") + "}"
            given = {**sigargs, **given}
            if kind == "func":
                exec(f"{a}def fun({args}):\n    return _body({n!r}, {inner})\n", ns)
                task = s.create_task(func=ns["fun"], **{k: v for k, v in common.items() if k != "session"})
            else:
                path = os.path.join(scratch, f"mod{u}{n}.py")
                with open(path, "w") as f:
                    f.write(f"from rocketry.args import *\nimport pparam\n{a}def main({args}):\n    return pparam.body({n!r}, {inner})\n")
                task = s.create_task(path=path, func_name="main", **{k: v for k, v in common.items() if k != "session"})
        elif kind == "code":
            order = sorted(R.sample(NAMES, R.choice([1, 2])))
            sig = {m: {"d": []} for m in order}
            task = CodeTask(code="import pparam\nreturn_value = pparam.body(%r, {%s})\n" % (n, ", ".join(f"{m!r}: {m}" for m in order)), **common)
        else:
            task = s.create_task(command=["/bin/echo"], argform=R.choice(["long", "--", None]), **{k: v for k, v in common.items() if k != "session"})
        t["sig"] = sig
        ts[n], tp[n] = t, given
        mirror["t"][n] = dict(task.parameters.items())
    todo, wait = R.randrange(3, 8), {"t": None, "n": 0}

    def kept():
        def same(p, m):
            p = dict(p.items())
            return p.keys() == m.keys() and all(p[k] is m[k] for k in m)
        return same(s.parameters, mirror["s"]) and all(same(s[n].parameters, mirror["t"][n]) for n in names)

    def note(n):
        seen, rv = None, show(result(BOX["k"]))
        st = s[n].status
        if ts[n]["kind"] == "cmd":
            if st == "success":
                rv = s.returns[s[n]]
                words = rv.decode().split()
                seen = {words[i][2:]: words[i + 1] for i in range(0, len(words) - 1, 2)}
                rv = f"?{rv!r}"
        else:
            for line in open(BOX["file"]) if os.path.exists(BOX["file"]) else []:
                k, who, kw = json.loads(line)
                if k == BOX["k"] and who == n:
                    seen = kw if seen is None else {"twice": "twice"}
        ops.append({"o": "run", "t": n, "status": st, "seen": seen if seen is not None else {"none": "none"}, "kept": kept(), "rv": rv})

    def ends(n):
        return sum(r.task_name == n and r.action != "run" for r in repo.collection)

    @s.hook_scheduler_cycle()
    def _cy():
        w = wait["t"]
        if w:
            if s[w].is_alive() or ends(w) == wait["ends"]:
                wait["n"] += 1
                if wait["n"] > 20000:
                    raise RuntimeError("the run does not end")
                time.sleep(.0005)
                return
            note(w)
            wait.update(t=None, n=0)
        flags.clear()
        if todo_left[0] <= 0 and not any(len(s[n].batches) for n in names):
            s.shut_down()
            return
        todo_left[0] -= 1
        for _ in range(R.choice([0, 1, 1, 2])):
            f = R.random()
            if f < .45:
                sset(R.choice(NAMES), True)
            elif f < .5:
                n = R.choice(["VERIF_A", "VERIF_E", "VERIF_NONE"])
                os.environ[n] = R.choice(["", f"env{next(G.n)}"])
                ops.append({"o": "eset", "n": n, "v": os.environ[n]})
            elif f < .65 and mirror["s"]:
                n = R.choice(sorted(mirror["s"]))
                del mirror["s"][n]
                s.parameters.clear()
                s.parameters.update(dict(mirror["s"]))
                ops.append({"o": "sdel", "n": n})
            else:
                t = R.choice(names)
                m = R.choice(sorted(ts[t]["sig"]) or NAMES) if R.random() < .9 else R.choice(NAMES)
                J, o, _ = G.arg(NAMES, plain=.5) if ts[t]["kind"] != "cmd" else G.arg([], 0, 1)
                s[t].parameters[m] = o
                mirror["t"][t][m] = o
                ops.append({"o": "tset", "t": t, "n": m, "a": J})
        pend = [n for n in names if len(s[n].batches)]
        t = pend[0] if pend else R.choice(names)
        if not pend and R.random() < .35 or todo_left[0] < 0:
            flags[t] = count(t)
        if not flags and not pend or R.random() < .25 and not flags:
            for _ in range(R.choice([1, 1, 2]) if ts[t]["x"] == "main" else 1 - len(pend)):
                ps = {m: G.arg(NAMES, plain=.6) if ts[t]["kind"] != "cmd" else G.arg([], 0, 1)
                      for m in R.sample(sorted(ts[t]["sig"]) or NAMES, R.choice([0, 1, min(2, len(ts[t]["sig"]) or 2)]))}
                d = {m: v[1] for m, v in ps.items()}
                R.choice([lambda: s[t].run(d), lambda: s[t].run(**d), lambda: s[t].run(Parameters(d))])()
                ops.append({"o": "req", "t": t, "ps": {m: v[0] for m, v in ps.items()}})
        BOX["k"] += 1
        wait["t"] = t
        wait["ends"] = ends(t)
    todo_left = [todo]
    _, e = call(lambda: asyncio.run(s.serve()), 30)
    for n in (log, log + "s"):
        logging.getLogger(n).handlers = []
    if os.path.exists(BOX["file"]):
        os.unlink(BOX["file"])
    # what the cases of TLC call an empty record is an empty sequence
    return {"k": "params", "ops": ops, "ts": ts, "sp": sp, "tp": tp, "env": {"VERIF_A": "envA", "VERIF_E": ""}, "e": e}


def run(case, scratch, on_hang):
    logging.raiseExceptions = False
    import warnings
    warnings.simplefilter("ignore")
    it = itertools.count()
    return collect(lambda: scenario(random.Random(f"{case['seed']}/{next(it)}"), scratch), case["n"])
