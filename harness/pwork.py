"""Command and code tasks: what they run, with what, and what comes of it. Judged by spec/Work.tla."""
import itertools, json, logging, os, random, time, warnings
from purelib import call, collect
from psess import loggers, unlog

COUNT = itertools.count()
# $1: file to note the run in, $2: exit code, $3: what to write out, $4: what to write as errors, $5: seconds to wait; the rest: options
SCRIPT = """#!/bin/sh
f=$1; shift; code=$1; shift; out=$1; shift; err=$1; shift; wait=$1; shift
{ printf '%s\\0' "$PWD"; printf '%s\\0' "$VERIF_W"; for a in "$@"; do printf '%s\\0' "$a"; done; printf '\\1\\0'; } >> "$f"
printf '%s' "$out"; printf '%s' "$err" >&2
if [ "$wait" != 0 ]; then exec sleep "$wait"; fi
case $code in -*) kill $code $$; sleep 20;; esac
exit $code
"""
VALUES = ["v", "two words", "", "a-b", "--x", "ü", "*", "a;b", "'q'", '"dq"', "$HOME", "a\\b", "line\nline", 5, 0, 1.5, True, None]
PLAIN = ["v", "two words", "a-b", "ü", "*", "a;b", "'q'", 5, 0, 1.5, True, None]     # as they are within the quotes of a shell
PNAMES = ["x", "y", "long-name", "under_score", "-o", "--opt", "N"]


def expr(R, names):
    """-> (model, code): + of constants and variables"""
    ps = [R.choice([["c", R.choice(["p", "q", ""])], ["v", R.choice(names)]]) for _ in range(R.choice([1, 1, 2]))]
    return ps, " + ".join(repr(x) if k == "c" else x for k, x in ps)


def work(R, scratch):
    from rocketry import Session
    from rocketry.args import SimpleArg
    from rocketry.conditions import SchedulerCycles
    from rocketry.tasks import CodeTask, CommandTask
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    from rocketry.log import TaskLogRecord
    u = next(COUNT)
    log = f"vw{os.getpid()}x{u}"
    loggers(log)
    repo = MemoryRepo(model=TaskLogRecord)
    logging.getLogger(log).handlers = [RepoHandler(repo)]
    prog = os.path.join(scratch, "prog.sh")
    if not os.path.exists(prog):
        open(prog, "w").write(SCRIPT)
        os.chmod(prog, 0o755)
    home = os.path.join(scratch, f"wd{u}")
    os.makedirs(home)
    s = Session(config=dict(task_logger_basename=log, scheduler_logger_basename=log + "s", cycle_sleep=.001, shut_cond=SchedulerCycles() >= 1))
    ts = {}
    for n in ["a", "b"][:R.choice([1, 1, 2])]:
        ex = R.choice(["main", "main", "async", "thread", "process"])
        common = dict(name=n, execution=ex, session=s)
        if R.random() < .5:
            names = R.sample(["x", "y", "z", "return_value"], R.choice([2, 3]))
            stmts, lines = [], []
            for _ in range(R.choice([0, 1, 2, 3, 4])):
                k = R.choice(["set"] * 5 + ["raise", "inact", "leak"])
                if k == "set":
                    v = R.choice(names + ["return_value"])
                    ps, c = expr(R, names)
                    stmts.append({"s": "set", "v": v, "ps": ps})
                    lines.append(f"{v} = {c}")
                elif k == "leak":
                    stmts.append({"s": "leak", "v": "return_value"})
                    lines.append("return_value = 'seen' if 'leak_' in dir() or 'leak_' in globals() else 'clean'\nleak_ = 1\nglobals()['leak_'] = 1")
                elif R.random() < .5:
                    stmts.append({"s": k, "v": ""})
                    lines.append("raise RuntimeError('planned')" if k == "raise" else "from rocketry.exc import TaskInactionException\nraise TaskInactionException()")
            ov = R.choice([None, None, "x", "none_"])
            ps = {m: R.choice(["1", "two", ""]) for m in R.sample(names, R.choice([0, 1, 2]))}
            CodeTask(code="\n".join(lines) or "pass", parameters=ps, **({"output_variable": ov} if ov else {}), **common)
            ts[n] = {"kind": "code", "ex": ex, "stmts": stmts, "out": ov or "return_value", "ps": ps, "names": names}
            continue
        shell = R.random() < .35
        form = R.choice([None, None, "-", "--", "short", "long"])
        code = R.choice([0, 0, 0, 0, 1, 2, 77, 255, -9, -15])      # below 0: ended by the signal
        out, err = R.choice(["", "out", "two words"]), R.choice(["", "bad", "very bad"])
        note = os.path.join(scratch, f"run{u}{n}")
        quick = R.random() < .04 and ex == "main" and not shell
        base = [note, str(code), out, err, "30" if quick else "0"]
        extra = [R.choice(["pos", "-v", "--flag", "word"]) for _ in range(R.choice([0, 0, 1, 2]))]
        vals = PLAIN if shell else VALUES
        ps = {m: R.choice(vals) for m in R.sample(PNAMES, R.choice([0, 0, 1, 2, 3]))}
        kw, env = {}, ""
        if shell:
            kw.update(command=" ".join([prog] + [f"'{x}'" for x in base] + extra), shell=True)
        else:
            kw.update(command=[prog] + base + extra)
        gone = R.random() < .06
        if gone:
            kw["command"] = os.path.join(home, "no such thing") if shell else [os.path.join(home, "nothing")]
        cwd = R.choice([None, home])
        if cwd:
            kw["cwd"] = cwd
        if R.random() < .2:
            env = "given"
            kw["kwds_popen"] = {"env": {**os.environ, "VERIF_W": env}}
        if R.random() < .2:
            kw.setdefault("kwds_popen", {})["text"] = True
        tmo = "0.3 seconds" if quick else R.choice([None, None, "never", "30 seconds", "1 hour", "100 days"])
        if tmo:
            kw["timeout"] = tmo
        if form:
            kw["argform"] = form
        CommandTask(parameters={m: SimpleArg(v) if R.random() < .2 else v for m, v in ps.items()}, **kw, **common)
        ts[n] = {"kind": "cmd", "ex": ex, "form": {None: "--", "short": "-", "long": "--"}.get(form, form), "extra": extra, "ps": {m: str(v) for m, v in ps.items()},
                 "code": code, "out": out, "err": err, "late": quick, "gone": gone, "cwd": os.path.realpath(cwd or os.getcwd()), "env": env, "note": note, "vals": vals,
                 "shell": shell}
    runs = []
    for _ in range(R.choice([1, 2, 3])):
        n = R.choice(list(ts))
        t = ts[n]
        if t["kind"] == "cmd":
            more = {m: R.choice(t["vals"]) for m in R.sample([x for x in PNAMES if x.isidentifier()], R.choice([0, 0, 1]))}
        else:
            more = {m: R.choice(["1", "two", ""]) for m in R.sample(t["names"], R.choice([0, 0, 1]))}
        s[n].run(**more)
        t0 = time.monotonic()
        e = call(s.start, 40)[1]
        x = {"t": n, "more": {m: str(v) for m, v in more.items()}, "e": e, "status": s[n].status or "none", "ret": "none", "calls": [], "told": True, "slow": time.monotonic() - t0 > 20}
        if s[n] in s.returns:
            rv = s.returns[s[n]]
            x["ret"] = rv.decode() if isinstance(rv, bytes) else "none" if rv is None else str(rv)
        if t["kind"] == "cmd" and os.path.exists(t["note"]):
            words = open(t["note"], newline="").read().split("\0")
            os.unlink(t["note"])
            one = []
            for w in words[:-1]:
                if w == "\1":
                    x["calls"].append({"cwd": os.path.realpath(one[0]), "env": one[1], "args": one[2:]})
                    one = []
                else:
                    one.append(w)
        last = list(repo.filter_by(task_name=n).all())[-1]
        if t["kind"] == "cmd" and not t["gone"] and not t["late"] and last.action == "fail":
            x["told"] = t["err"] in (last.exc_text or "") and (t["shell"] and t["code"] < 0 or str(t["code"]) in last.exc_text)
        runs.append(x)
    unlog(log)
    os.rmdir(home)
    for t in ts.values():
        for k in ("vals", "note", "names"):
            t.pop(k, None)
    return {"k": "work", "ts": ts, "runs": runs}


def run(case, scratch, on_hang):
    logging.raiseExceptions = False
    warnings.simplefilter("ignore")
    os.environ.pop("VERIF_W", None)
    it = itertools.count()

    def one():
        R = random.Random(f"{case['seed']}/{next(it)}")
        random.seed(R.random())
        return work(R, scratch)
    return collect(one, case["n"])
