"""Sessions and their tasks: names, groups (registry) and running only some of the tasks (run). Judged by spec/Registry.tla."""
import itertools, json, logging, os, random, threading, warnings
from purelib import call, collect

COUNT = itertools.count()
FLAGS = {}
NAMES = ["a", "b", "c", "x.a", "a - 1", "a - 2", "do it"]
BOX = {}


def loggers(log):
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRecord
    for n in (log, log + "s"):
        lg = logging.getLogger(n)
        lg.setLevel(logging.INFO)
        lg.propagate = False
        lg.handlers = [RepoHandler(MemoryRepo(model=MinimalRecord)) if n == log else logging.NullHandler()]


def unlog(log):
    for n in (log, log + "s"):
        logging.getLogger(n).handlers = []


def flag(f):
    def fun():
        return FLAGS.get(f, False)
    return fun


def registry(R, scratch):
    from rocketry import Grouper, Rocketry, Session
    from rocketry.conditions import FuncCond
    from rocketry.tasks import CodeTask, FuncTask
    u = next(COUNT)
    log = f"vs{os.getpid()}x{u}"
    loggers(log)
    pol, ses, apps, groups, ids, ops, funcs = {}, {}, {}, {}, {}, [], {}
    other = Session(config=dict(task_logger_basename=log, task_pre_exist="raise", use_instance_naming=False))
    inst = {s for s in ("s1", "s2") if R.random() < .15}
    for s in ["s1", "s2"][:R.choice([1, 2])]:
        pol[s] = R.choice(["raise", "rename", "ignore"])
        ses[s] = Session(config=dict(task_logger_basename=log, scheduler_logger_basename=log + "s", task_pre_exist=pol[s],
                                     use_instance_naming=s in inst))
    for s in ses:
        apps[s] = Rocketry(session=ses[s])
        logging.getLogger(log).handlers = logging.getLogger(log).handlers[:1]
    for g in ["g1", "g2", "g3"][:R.choice([1, 2, 3])]:
        fl = R.sample("DEF", R.choice([0, 0, 1]))
        G = Grouper(prefix=R.choice([None, "", "x.", "y."]), execution=R.choice([None, None, "main", "thread"]),
                    start_cond=(R.choice([f"is {fl[0]}", FuncCond(flag(fl[0]))]) if fl else None))
        groups[g] = [G, fl, True]
        pol[g], ses[g], apps[g] = "raise", G.session, G
    for s in ses.values():
        for f in "ABCDEF":
            FuncCond(syntax=f"is {f}", session=s)(flag(f))
    R.choice([other, *ses.values()]).set_as_default()
    loose = []
    n_task = itertools.count(1)

    def idof(task):
        return ids.get(id(task), ["?"])[0]

    def snap():
        res = {}
        for s, S in ses.items():
            if s in groups and not groups[s][2]:
                continue
            tasks, find = list(S.tasks), {}
            for n in R.sample(NAMES, 3) + [t.name for t in tasks[:3]]:
                key = n
                if n in funcs and R.random() < .5:
                    key = funcs[n]
                v, e = call(lambda: S[key])
                assert (key in S) == (e == ""), "in and [] disagree"
                find[n] = idof(v) if not e else "none" if e == "KeyError" else e
            seen = []
            for t in tasks[:4]:
                fl = {str(i): [f for f in "ABCDEF" if R.random() < .6] for i in range(2)}
                ready = {}
                for i, up in fl.items():
                    FLAGS.clear()
                    FLAGS.update({f: True for f in up})
                    v, e = call(t.is_runnable)
                    ready[i] = v if not e else e
                seen.append({"t": idof(t), "home": t.session is S, "ex": t.execution or "", "flags": fl, "ready": ready})
            res[s] = {"has": [[t.name, idof(t)] for t in tasks], "find": find, "par": dict(S.parameters.items()), "tasks": seen}
        return res

    def done(o, e):
        o["ok"], o["snap"] = e == "", snap()
        o["e"] = e
        ops.append(o)

    def make(s, n):
        t, S = f"t{next(n_task)}", ses[s]
        fl = R.sample("ABC", R.choice([0, 1, 1, 2]))
        ex = R.choice(["", "", "main", "thread", "async", "process"])
        kw = {"execution": ex or None} if ex or R.random() < .5 else {}
        if fl:
            if R.random() < .5:
                kw["start_cond"] = " & ".join(f"is {f}" for f in fl)
            else:
                c = FuncCond(flag(fl[0]))
                for f in fl[1:]:
                    c = c & FuncCond(flag(f))
                kw["start_cond"] = c
        else:
            kw["start_cond"] = "true"
        before = set(map(id, S.tasks))
        made = []

        def fun():
            pass
        how = R.choice(["app", "deco", "code", "cmd", "func", "class"])
        want, cls = n, None
        if how in ("app", "deco", "func", "class") and n.isidentifier() and R.random() < .5:
            fun.__name__ = n
            named = {}
            if how in ("func", "class"):
                fun.__module__ = R.choice(["m.n", "__main__"])
                want = n if fun.__module__ == "__main__" else f"m.n:{n}"
        else:
            named = {"name": n}
        if how == "class":
            class cls(FuncTask):
                pass

        def do():
            if how == "app":
                return apps[s].task(**named, **kw)(fun)
            if how == "deco":
                return S.create_task(**named, **kw)(fun)
            if how == "code":
                return CodeTask(code="pass", name=n, session=S, **kw)
            if how == "cmd":
                return S.create_task(command="true", name=n, **kw)
            if how == "class":
                return cls(func=fun, session=S, **named, **kw)
            return FuncTask(session=S, **named, **kw)(fun)
        v, e = call(do)
        new = [x for x in S.tasks if id(x) not in before]
        if s in inst and not named and how not in ("code", "cmd"):
            want = str(id(new[0])) if new else "identity"
        assert len(new) <= 1
        if how in ("app", "deco", "func") and not e:
            funcs[fun.__rocketry__["name"]] = fun
        for x in new:
            ids[id(x)] = (t, x)
        if e == "" and not new and hasattr(v, "start_cond"):
            ids[id(v)] = (t, v)
            loose.append(v)
        done({"o": "make", "s": s, "t": t, "n": want, "ex": ex, "conds": fl}, e and "rejected")

    for _ in range(R.randrange(4, 12)):
        open_groups = [g for g in groups if groups[g][2]]
        s = R.choice([x for x in ses if x not in groups or groups[x][2]])
        S = ses[s]
        f = R.random()
        if f < .5:
            n = R.choice(NAMES[:3]) if s in groups else R.choice(NAMES)
            make(s, n)
        elif f < .6 and S.tasks:
            t = R.choice(sorted(S.tasks, key=lambda t: t.name))
            n = R.choice([m for m in (NAMES[:3] if s in groups else NAMES) if m != t.name and (pol[s] != "ignore" or m not in [x.name for x in S.tasks])] or ["zz"])
            funcs.clear()
            _, e = call(lambda: setattr(t, "name", n))
            done({"o": "rename", "t": idof(t), "n": n}, e)
        elif f < .62 and (others := [t for x in ses.values() if x is not S for t in x.tasks] + loose):
            t = R.choice(sorted(others, key=idof))      # not a task of this session, though it may be called like one
            _, e = call(lambda: S.remove_task(t))
            done({"o": "removeobj", "s": s, "t": idof(t)}, e)
        elif f < .72:
            t = R.choice(sorted(S.tasks, key=lambda t: t.name)) if S.tasks and R.random() < .8 else None
            n = t.name if t else R.choice([m for m in NAMES + ["zz"] if m not in [x.name for x in S.tasks]] or ["zz"])
            key = R.choice([t, n]) if t else n
            if t and R.random() < .3:
                _, e = call(t.delete)
            else:
                _, e = call(lambda: S.remove_task(key))
            if t:
                loose.append(t)
            done({"o": "remove", "s": s, "n": n}, e)
        elif f < .8 and loose or loose and R.random() < .3:
            t = loose.pop(R.randrange(len(loose)))
            funcs.clear()
            _, e = call(lambda: S.add_task(t))
            if t not in S.tasks and any(idof(x) == idof(t) for x in S.tasks):
                raise AssertionError("a copy was added")
            done({"o": "add", "s": s, "t": idof(t)}, e)
            if t not in S.tasks:
                loose.append(t)
        elif f < .85:
            n, v = R.choice("pqr"), f"v{R.randrange(9)}"
            apps[s].params(**{n: v})
            done({"o": "param", "s": s, "n": n, "v": v}, "")
        elif open_groups:
            g, s = R.choice(open_groups), R.choice([x for x in ses if x not in groups])
            G, fl, _ = groups[g]
            clash = {(G.prefix or "") + t.name for t in G.session.tasks} & {t.name for t in ses[s].tasks}
            if clash and pol[s] == "raise" and len(G.session.tasks) > 1:
                continue
            if G.prefix and any(G.prefix + t.name in G.session for t in G.session.tasks):
                continue
            funcs.clear()
            _, e = call(lambda: apps[s].include_grouper(G))
            groups[g][2] = False
            done({"o": "include", "s": s, "g": g, "prefix": G.prefix or "", "ex": G.execution or "", "conds": fl}, e)
    unlog(log)
    return {"k": "registry", "pol": pol, "ops": ops}


def body(name, out, act=None):
    from rocketry.exc import TaskInactionException
    how = "process" if os.getpid() != BOX["pid"] else "loop" if threading.current_thread() is threading.main_thread() else "thread"
    fd = os.open(BOX["file"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps([name, how]) + "\n").encode())
    os.close(fd)
    if act:
        act()
    if out == "fail":
        raise RuntimeError("planned")
    if out == "inaction":
        raise TaskInactionException()


def runonly(R, scratch):
    from rocketry import Session
    from rocketry.conditions import FuncCond, SchedulerCycles
    u = next(COUNT)
    log = f"vs{os.getpid()}x{u}"
    loggers(log)
    BOX.update(file=os.path.join(scratch, f"ran{u}.jsonl"), pid=os.getpid())
    cases = []
    s = Session(config=dict(task_logger_basename=log, scheduler_logger_basename=log + "s", cycle_sleep=None, max_process_count=100,
                            execution=R.choice(["main", "async", "thread"]), shut_cond=R.choice([None, SchedulerCycles() >= 3])))
    (s if R.random() < .7 else Session()).set_as_default()
    loop = {"main": "loop", "async": "loop", "thread": "thread", "process": "process", "": ""}
    ts, conds, boom = {}, {}, []
    extra = itertools.count()

    @s.hook_startup()
    def start():
        if boom:
            raise ValueError("planned")

    def add():
        s.create_task(func=lambda: None, name=f"extra{next(extra)}", execution="main")
    for n in ["a", "b", "c", "d", "e"][:R.choice([2, 3, 4, 5])]:
        ex = R.choice(["", "", "main", "async", "thread", "process"])
        conds[n] = R.random() < .5
        out = R.choice(["success", "success", "fail", "inaction"])
        act = add if ex == "main" and R.random() < .15 else None
        kw = R.choice([{}, {}, {}, {"on_startup": True}, {"on_shutdown": True}])
        if kw and act:
            kw = {}
        a = "async " if ex in ("main", "async") and R.random() < .5 else ""
        ns = {"body": body, "act": act}
        exec(f"{a}def fun():\n    return body({n!r}, {out!r}, act)\n", ns)
        s.create_task(func=ns["fun"], name=n, execution=ex or None, start_cond=FuncCond(lambda n=n: conds[n]), disabled=R.random() < .25,
                      priority=R.randrange(3), **kw)
        ts[n] = {"ex": ex, "out": out}
    for _ in range(R.choice([1, 2, 3])):
        for n in conds:
            conds[n] = R.random() < .5
            s[n].disabled = R.random() < .25
        names = R.sample(sorted(ts), R.randrange(1, len(ts) + 1)) if R.random() < .95 else []
        ex = R.choice(["", "", "", "main", "async", "thread", "process"])
        obey = R.random() < .4
        boom[:] = [1] if R.random() < .15 and not any(s[n].on_shutdown for n in ts) else []
        attrs = ("name", "execution", "disabled", "start_cond", "end_cond", "parameters", "priority", "on_startup", "on_shutdown", "timeout", "func")
        before = {n: ([getattr(s[n], a) for a in attrs], len(s[n].batches)) for n in ts}
        shut, had = s.config.shut_cond, len(s.tasks)
        case = {"k": "run", "names": names, "ex": loop[ex], "obey": obey, "default": loop[s.config.execution], "want": "ValueError" if boom else "",
                "before": {n: s[n].status or "none" for n in ts},
                "ts": {n: {"ex": loop[ts[n]["ex"]], "out": ts[n]["out"], "cond": conds[n], "disabled": s[n].disabled} for n in ts}}
        _, e = call(lambda: s.run(*names, obey_cond=obey, **({"execution": ex} if ex else {})), 30)
        ran = [json.loads(x) for x in open(BOX["file"])] if os.path.exists(BOX["file"]) else []
        if os.path.exists(BOX["file"]):
            os.unlink(BOX["file"])
        case["e"] = e
        if boom:
            case["names"] = []          # no task is reached
        case["ran"] = {n: sum(x[0] == n for x in ran) for n in ts}
        case["how"] = {n: next((x[1] for x in ran if x[0] == n), "none") for n in ts}
        case["status"] = {n: s[n].status or "none" for n in ts}
        case["kept"] = {n: all(x is y or x == y for x, y in zip(before[n][0], [getattr(s[n], a) for a in attrs])) and before[n][1] == len(s[n].batches) for n in ts}
        case["keptses"] = s.config.shut_cond is shut and len(s.tasks) >= had
        cases.append(case)
    unlog(log)
    return cases


def run(case, scratch, on_hang):
    logging.raiseExceptions = False
    warnings.simplefilter("ignore")
    it = itertools.count()
    f = {"registry": registry, "run": runonly}[case["what"]]
    res = collect(lambda: f(random.Random(f"{case['seed']}/{next(it)}"), scratch), case["n"])
    return [y for x in res for y in (x if isinstance(x, list) else [x])]
