"""Combined conditions: texts and objects, asked in several states.  Judged by spec/Expr.tla."""
import random, re
from purelib import call, collect

CURRENT = {}       # the flags of the state that is being asked


def world(R):
    """A session with conditions of its own -> (session, atoms: {token: (JSON, text, maker of the object)})"""
    from rocketry import Rocketry, Session
    from rocketry.args import Session as SessionArg
    from rocketry.conditions import AlwaysFalse, AlwaysTrue, FuncCond, IsEnv, ParamExists
    import warnings
    warnings.simplefilter("ignore")
    s = Session(config={"task_logger_basename": "vexpr", "scheduler_logger_basename": "vexprs"})
    if R.random() < .5:
        s.set_as_default()
    else:
        Session(config={"task_logger_basename": "vexpr", "scheduler_logger_basename": "vexprs"}, parameters={"x": "other", "env": "other"}).set_as_default()
    F = CURRENT
    atoms = {}

    @FuncCond(syntax="is f0", session=s)
    def f0():
        return F["f0"]

    @FuncCond(syntax=re.compile(r"is f(?P<n>[1-3])"), session=s)
    def fn(n, session=SessionArg()):
        assert session is s
        return F["f" + str(n)]

    @FuncCond(syntax=["is f4", re.compile(r"has f4 (at|on) [a-z]+")], session=s)
    def f4(session=SessionArg(), *a):
        return F["f4"]
    f5 = FuncCond(lambda: F["f5"])
    fi = FuncCond(lambda a, b=0: F[f"f{a + b}"])
    at = {
        "t": ({"k": "const", "v": True}, ["true", "always true"], lambda: AlwaysTrue()),
        "f": ({"k": "const", "v": False}, ["false", "always false"], lambda: AlwaysFalse()),
        "f0": ({"k": "flag", "name": "f0"}, ["is f0"], lambda: f0),
        "f1": ({"k": "flag", "name": "f1"}, ["is f1"], lambda: fn("1")),
        "f2": ({"k": "flag", "name": "f2"}, ["is f2"], lambda: fn(n="2")),
        "f3": ({"k": "flag", "name": "f3"}, ["is f3"], lambda: R.choice([lambda: fi(3), lambda: fi(1, b=2)])()),
        "f4": ({"k": "flag", "name": "f4"}, ["is f4", "has f4 at home"], lambda: f4),
        "f5": ({"k": "flag", "name": "f5"}, None, lambda: f5),
        "px": ({"k": "param", "names": ["x"], "vals": {}}, ["param 'x' exists"], lambda: ParamExists("x")),
        "pw": ({"k": "param", "names": ["word"], "vals": {}}, ["param 'word' exists"], lambda: ParamExists("word")),
        "pxv": ({"k": "param", "names": [], "vals": {"x": "v"}}, ["param 'x' is 'v'"], lambda: ParamExists(x="v")),
        "pwx": ({"k": "param", "names": ["word"], "vals": {"x": "1", "y": "2"}}, None, lambda: ParamExists("word", x="1", y="2")),
        "et": ({"k": "env", "v": "test"}, ["env 'test'"], lambda: IsEnv("test")),
    }
    return s, at


def states(R):
    out = []
    for _ in range(R.choice([2, 3, 4])):
        ps = {}
        if R.random() < .6:
            ps["x"] = R.choice(["v", "1", "w"])
        if R.random() < .6:
            ps["y"] = R.choice(["2", "3"])
        if R.random() < .5:
            ps["word"] = "z"
        if R.random() < .6:
            ps["env"] = R.choice(["test", "prod"])
        out.append({"flags": {f"f{i}": R.random() < .5 for i in range(6)}, "params": ps})
    return out


def ask(s, cond, ss, R):
    from rocketry.core import Parameters
    rs = []
    for st in ss:
        CURRENT.clear()
        CURRENT.update(st["flags"])
        s.parameters.clear()
        s.parameters.update(st["params"])
        r, e = call(lambda: cond.observe(session=s))
        rs.append({"e": e, "v": bool(r)})
    return rs


def tokens(R, at, depth):
    """Tokens of an expression"""
    f = R.random()
    if depth == 0 or f < .25:
        return [R.choice([a for a in at if at[a][1]])]
    if f < .45:
        return ["~"] + tokens(R, at, depth - 1)
    if f < .65:
        return ["("] + tokens(R, at, depth - 1) + [")"]
    out = tokens(R, at, depth - 1)
    for _ in range(R.choice([1, 1, 2, 3])):
        out += [R.choice("&|")] + tokens(R, at, depth - 1)
    return out


def harm(R, ts):
    ts = list(ts)
    i = R.randrange(len(ts))
    k = R.choice(["drop", "dup", "ins", "swap"])
    if k == "drop" and len(ts) > 1:
        del ts[i]
    elif k == "dup":
        ts.insert(i, ts[i])
    elif k == "ins":
        ts.insert(i, R.choice("&|~()"))
    elif i + 1 < len(ts):
        ts[i], ts[i + 1] = ts[i + 1], ts[i]
    return ts


def write(R, ts, at):
    out = ""
    tight = R.random() < .3
    for t in ts:
        x = R.choice(at[t][1]) if t in at else t
        out += ("" if tight and not (t in at and out and out[-1] not in "&|~()") else R.choice([" ", " ", "", "  "]) if t not in at or (out and out[-1] in "&|~()") else " ") + x
    return out


def w_text(R):
    from rocketry.parse import parse_condition
    s, at = world(R)
    ts = tokens(R, at, R.choice([1, 2, 3, 3]))
    if len(ts) > 40:
        return None
    if R.random() < .25:
        ts = harm(R, ts)
    if any(a in at and b in at for a, b in zip(ts, ts[1:])):
        return None     # could be the text of one atom (a parameter may have any name)
    text = write(R, ts, at)
    ss = states(R)
    if R.random() < .3:
        # as the start condition of a task
        cond, e = call(lambda: s.create_task(func=lambda: None, name="t", execution="main", start_cond=text).start_cond)
    else:
        cond, e = call(lambda: parse_condition(text, session=s))
    return {"k": "expr", "ts": ts, "as": {a: v[0] for a, v in at.items()}, "ss": ss, "e": e, "rs": [] if e else ask(s, cond, ss, R), "text": text}


def w_objects(R):
    """Conditions made of one another; all of them are asked in the end"""
    from rocketry.conditions import All, Any, Not
    s, at = world(R)
    pool = [([a], v[2]()) for a, v in at.items()]
    new = []
    for _ in range(R.randrange(2, 9)):
        k = R.choice(["&", "|", "~", "all", "any", "not", "&="])
        n = 1 if k in ("~", "not") else 2 if k in ("&", "|", "&=") else R.choice([1, 2, 3, 4])
        xs = [R.choice(new) if new and R.random() < .6 else R.choice(pool) for _ in range(n)]
        par = [["(", *x[0], ")"] for x in xs]
        op = "&" if k in ("&", "all", "&=") else "|"
        ts = par[0]
        for q in par[1:]:
            ts = ts + [op] + q
        os_ = [x[1] for x in xs]
        if k == "&=":
            o = os_[0]
            o &= os_[1]
        else:
            o = {"&": lambda: os_[0] & os_[1], "|": lambda: os_[0] | os_[1], "~": lambda: ~os_[0], "not": lambda: Not(os_[0]),
                 "all": lambda: All(*os_), "any": lambda: Any(*os_)}[k]()
        if n == 1 and k in ("~", "not"):
            ts = ["~"] + par[0]
        if len(ts) < 60:
            new.append((ts, o))
    ss = states(R)
    i = R.randrange(len(new)) if new else 0
    if not new:
        return None
    ts, o = new[i]
    return {"k": "expr", "ts": ts, "as": {a: v[0] for a, v in at.items()}, "ss": ss, "e": "", "rs": ask(s, o, ss, R), "text": "objects"}


WHAT = {"text": w_text, "objects": w_objects}


def run(case, scratch, on_hang):
    R = random.Random(case["seed"])
    return collect(lambda: WHAT[case["what"]](R), case["n"])
