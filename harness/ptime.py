"""Time periods: random periods (in the spellings the package accepts) and instants, and what the code makes of them.
Judged by spec/TimeP.tla."""
import datetime, random
from zoneinfo import ZoneInfo
from purelib import US, call, collect, inst, off, uninst

TD = datetime.timedelta
KINDS = ["second", "minute", "hour", "day", "week", "month", "year"]
LO = {"second": 0, "minute": 0, "hour": 0, "day": 0, "week": 1, "month": 1, "year": 1}
HI = {"second": 999, "minute": 59, "hour": 59, "day": 23, "week": 7, "month": 31, "year": 12}
DAYN = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONN = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
LEAP = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
MLEN = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ZONES = ["Europe/Helsinki", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe"]


def classes():
    from rocketry.time import interval as I
    return {"second": I.TimeOfSecond, "minute": I.TimeOfMinute, "hour": I.TimeOfHour, "day": I.TimeOfDay, "week": I.TimeOfWeek,
            "month": I.TimeOfMonth, "year": I.TimeOfYear}


def nth(i):
    return f"{i}{'th' if 10 < i < 20 else {1: 'st', 2: 'nd', 3: 'rd'}.get(i % 10, 'th')}"


def clock(R, sec):
    """A time of the day: (text, seconds, microseconds)"""
    h, m, s = sec // 3600, sec // 60 % 60, sec % 60
    us = 0
    f = R.random()
    if f < .2 and s == 0:
        return f"{(h - 1) % 12 + 1}:{m:02d} {'AM' if h < 12 else 'PM'}", sec, 0
    if f < .5 and s == 0:
        return f"{h:02d}:{m:02d}", sec, 0
    if f < .7:
        us = R.choice([500000, 1, 999999, 123456, 100])
        return f"{h:02d}:{m:02d}:{s:02d}.{us:06d}", sec, us
    return f"{h:02d}:{m:02d}:{s:02d}", sec, 0


def rsec(R):
    return R.choice([0, 60, 3600, 36000, 43200, 82800, 86340, 86399, R.randrange(86400), R.randrange(24) * 3600, R.randrange(1440) * 60])


def point(R, k, txt=False, bad=False):
    """An end point: (JSON, python value).  txt: has to be a string"""
    if bad:
        i = R.choice([LO[k] - 1, HI[k] + (2 if k == "second" else 1), HI[k] + 10, -5])
        return {"f": "unit", "i": i}, i
    i = R.choice([LO[k], HI[k], LO[k] + 1, HI[k] - 1, R.randint(LO[k], HI[k]), R.randint(LO[k], HI[k])])
    if R.random() < .5 and not txt:
        return {"f": "unit", "i": i}, i
    if k == "second":
        return {"f": "unit", "i": i}, i
    if k == "minute":
        us = R.choice([0, 0, 500000, 120000, 1])
        return {"f": "at", "o": [0, i, us]}, (f"{i:02d}" + (f".{us:06d}".rstrip("0") if us else ""))
    if k == "hour":
        s, us = R.choice([0, 0, 30, R.randrange(60)]), R.choice([0, 0, 250000])
        return {"f": "at", "o": [0, i * 60 + s, us]}, f"{i:02d}:{s:02d}" + (f".{us:06d}".rstrip("0") if us else "")
    if k == "day":
        t, s, us = clock(R, rsec(R))
        return {"f": "at", "o": [0, s, us]}, t
    plain = R.random() < .5
    t, s, us = clock(R, rsec(R))
    if k == "week":
        n = DAYN[i - 1]
        n = R.choice([n, n[:3], n.lower(), n[:3].upper()])
        return ({"f": "unit", "i": i}, n) if plain else ({"f": "at", "o": [i - 1, s, us]}, f"{n} {t}")
    if k == "month":
        return ({"f": "unit", "i": i}, R.choice([nth(i), nth(i), f"{i}."])) if plain else ({"f": "at", "o": [i - 1, s, us]}, f"{nth(i)} {t}")
    n = MONN[i - 1]
    n = R.choice([n, n[:3], n.lower(), n[:3].upper()])
    if plain:
        return {"f": "unit", "i": i}, n
    d = R.choice([1, MLEN[i - 1], R.randint(1, MLEN[i - 1])])
    return {"f": "at", "o": [LEAP[i - 1] + d - 1, s, us]}, f"{n} {nth(d)} {t}"


def anchored(R, kinds=KINDS, txt=False, modes=None, bad=0):
    """-> (JSON, kind, mode, python values)"""
    k = R.choice(kinds)
    m = R.choice(modes or ["between", "between", "between", "after", "before", "at", "full", "starting"])
    if txt and k == "second":
        k = "day"
    wrong = R.random() < bad
    a, pa = point(R, k, txt, wrong and m != "before")
    b, pb = point(R, k, txt, wrong and m == "before")
    if m == "at" and k == "year" and a["f"] == "at":
        a, pa = {"f": "unit", "i": 2}, 2
    return {"op": "anchored", "k": k, "m": m, "a": a, "b": b}, (k, m, pa, pb)


def build(v):
    """The period, as an object"""
    k, m, a, b = v
    C = classes()[k]
    return {"between": lambda: C(a, b), "after": lambda: C(a, None), "before": lambda: C(None, b), "at": lambda: C.at(a),
            "full": lambda: C(), "starting": lambda: C.starting(a)}[m]()


def build_cond(v, R):
    """The condition that the current time is in the period"""
    from rocketry import conds
    from rocketry.conditions import IsPeriod
    from rocketry.conds import time_of_second
    k, m, a, b = v
    if k == "year":
        return IsPeriod(period=build(v))
    w = getattr(conds, f"time_of_{k}") if k != "second" else time_of_second
    return {"between": lambda: w.between(a, b), "after": lambda: w.after(a), "before": lambda: w.before(b),
            "at": lambda: R.choice([w.at, w.on])(a), "full": lambda: w.get_cond(), "starting": lambda: w.starting(a)}[m]()


def text(v):
    k, m, a, b = v
    return {"between": f"time of {k} between {a} and {b}", "after": f"time of {k} after {a}", "before": f"time of {k} before {b}",
            "at": f"time of {k} on {a}"}[m]


def instant(R, ps=()):
    y = R.choice([1999, 2000, 2001, 2023, 2024, 2024, 2025, 2099, 2100, 2101, R.randint(1975, 2200)])
    t = datetime.datetime(y, 1, 1) + TD(days=R.randrange(365), seconds=rsec(R), microseconds=R.choice([0, 0, 0, 1, 999999, R.randrange(10**6)]))
    f = R.random()
    if f < .15:
        t = t.replace(day=R.choice([1, 27, 28]), hour=R.choice([0, 23]))
    elif f < .25:
        t = datetime.datetime(y, 2, 28) + TD(days=R.choice([0, 1, 2]), seconds=rsec(R))
    elif f < .3:
        t = datetime.datetime(y, R.choice([12, 1]), R.choice([31, 1]), R.choice([0, 23]), R.choice([0, 59]))
    elif f < .8 and ps:
        p = R.choice(ps)
        if p["op"] == "anchored":
            e = p[R.choice("ab")]
            o = e["o"] if e["f"] == "at" else None
            k = p["k"]
            if o is None:
                i = e["i"]
                o = {"second": [0, 0, i * 1000], "minute": [0, i, 0], "hour": [0, i * 60, 0], "day": [0, i * 3600, 0], "week": [i - 1, 0, 0],
                     "month": [i - 1, 0, 0], "year": [LEAP[min(max(i, 1), 12) - 1], 0, 0]}[k]
            t0 = t.replace(microsecond=0)
            if k != "second":
                t0 = t0.replace(second=0)
            if k not in ("second", "minute"):
                t0 = t0.replace(minute=0)
            if k in ("day", "week", "month", "year"):
                t0 = t0.replace(hour=0)
            if k == "week":
                t0 -= TD(days=t0.weekday())
            if k in ("month", "year"):
                t0 = t0.replace(day=1)
            if k == "year":
                t0 = t0.replace(month=1)
            u = {"second": TD(milliseconds=1), "minute": TD(seconds=1), "hour": TD(minutes=1), "day": TD(hours=1)}.get(k, TD(days=1))
            t = t0 + TD(days=o[0], seconds=o[1], microseconds=o[2]) + R.choice([0, 0, 1, -1]) * u + R.choice([0, 0, 1, -1]) * US
    if R.random() < .1:
        t = t.replace(microsecond=0) - US
    return t


def aware(R, t):
    """The same wall clock, perhaps with a time zone"""
    if R.random() < .3:
        return t.replace(tzinfo=R.choice([ZoneInfo(R.choice(ZONES)), datetime.timezone(TD(hours=R.choice([-7, 3, 12])))]))
    return t


def iv_out(r, e):
    return {"e": e} if e else {"e": "", "l": inst(r.left), "r": inst(r.right), "closed": r.closed}


def session_at(t, R):
    """A session whose clock shows the local time t, perhaps with a time zone. -> (session, local time)"""
    from rocketry import Session
    zone = None
    f = R.random()
    if f < .3:
        zone = ZoneInfo(R.choice(ZONES))
    elif f < .5:
        zone = datetime.timezone(TD(hours=R.choice([-7, 3, 12])))
    if zone is None:
        ts = t.replace(tzinfo=datetime.timezone.utc)     # the harness runs with TZ=UTC
    else:
        ts = t.replace(tzinfo=zone)
    # timestamps are floats: keep to what they can tell
    stamp = round(ts.timestamp(), 3)
    local = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + TD(milliseconds=round(stamp * 1000))
    local = local.astimezone(zone or datetime.timezone.utc).replace(tzinfo=None)
    s = Session(config={"time_func": lambda: stamp, **({"timezone": zone} if zone else {})})
    return s, local


def w_in(R):
    """Membership in one period, by class, condition or text"""
    how = R.choice(["class", "class", "cond", "text"])
    p, v = anchored(R, txt=how == "text", kinds=KINDS if how != "text" else ["minute", "hour", "day", "week", "month"],
                    modes=["between", "after", "before"] + (["at"] if how == "text" else []) if how == "text" else None, bad=0 if how == "text" else .06)
    if how == "text" and v[1] == "at" and v[0] not in ("week", "month"):
        return w_in(R)
    t = instant(R, [p])
    if how == "class":
        r, e = call(lambda: aware(R, t) in build(v))
    else:
        from rocketry.parse import parse_condition
        s, t = session_at(t, R)
        r, e = call(lambda: (build_cond(v, R) if how == "cond" else parse_condition(text(v), session=s)).observe(session=s))
    return {"k": "in", "p": p, "t": inst(t), "r": {"e": e, "v": r} if not e else {"e": e}, "how": how, "v": [str(x) for x in v]}


def w_roll(R):
    p, v = anchored(R)
    t = instant(R, [p])
    q = R.choice(["fwd", "back"])
    a = aware(R, t)

    def go():
        x = build(v)
        return x.rollforward(a) if q == "fwd" else x.rollback(a)
    r, e = call(go)
    return {"k": q, "p": p, "t": inst(t), "r": iv_out(r, e), "inside": [], "gap": [], "v": [str(x) for x in v]}


def combo(R, depth=1):
    """-> (JSON, object, leaves) of a combination of periods by & and |, operators, All and Any"""
    from rocketry.core.time.base import All, Any
    n = R.choice([2, 2, 3])
    same = R.random() < .4
    kinds = [R.choice(["hour", "day", "week", "month", "year"])] if same else ["hour", "day", "week", "month", "year"]
    parts = []
    for _ in range(n):
        if depth and R.random() < .25:
            parts.append(combo(R, depth - 1))
        else:
            p, v = anchored(R, kinds)
            parts.append((p, build(v), [p]))
    op = R.choice(["all", "any"])
    if R.random() < .5:
        o = parts[0][1]
        for q in parts[1:]:
            o = o & q[1] if op == "all" else o | q[1]
    else:
        o = (All if op == "all" else Any)(*[q[1] for q in parts])
    return {"op": op, "ps": [q[0] for q in parts]}, o, [x for q in parts for x in q[2]]


def w_comb_in(R):
    p, o, leaves = combo(R)
    t = instant(R, leaves)
    r, e = call(lambda: aware(R, t) in o)
    return {"k": "in", "p": p, "t": inst(t), "r": {"e": e, "v": r} if not e else {"e": e}}


def w_time_text(R):
    """Combinations given as text: & before |, parentheses"""
    from rocketry import Session
    from rocketry.parse import parse_time, parse_condition
    leaves = []

    def leaf():
        while True:
            p, v = anchored(R, ["minute", "hour", "day", "week", "month"], txt=True, modes=["between", "after", "before", "at"])
            if v[1] != "at" or v[0] in ("week", "month"):
                leaves.append(p)
                return p, text(v)

    def expr(d):
        n = R.choice([1, 2, 2, 3])
        ors = []
        for _ in range(n):
            ands = []
            for _ in range(R.choice([1, 1, 2])):
                if d and R.random() < .3:
                    p, s = expr(d - 1)
                    ands.append((p, f"({s})"))
                else:
                    ands.append(leaf())
            ors.append(({"op": "all", "ps": [a[0] for a in ands]} if len(ands) > 1 else ands[0][0], " & ".join(a[1] for a in ands)))
        return ({"op": "any", "ps": [a[0] for a in ors]} if n > 1 else ors[0][0]), " | ".join(a[1] for a in ors)
    p, s = expr(1)
    t = instant(R, leaves)
    if R.random() < .5:
        ses = Session()
        r, e = call(lambda: t in parse_time(s, session=ses))
    else:
        ses, t = session_at(t, R)
        r, e = call(lambda: parse_condition(s, session=ses).observe(session=ses))
    return {"k": "in", "p": p, "t": inst(t), "r": {"e": e, "v": r} if not e else {"e": e}, "text": s}


def points_between(R, l, r, n=6):
    """Instants strictly between l and r"""
    if r - l <= US:
        return []
    res = [l + US, r - US]
    span = (r - l) // US
    res += [l + R.randrange(1, span) * US for _ in range(n)]
    return [x for x in res if l < x < r]


def roll_case(R, p, o, leaves, t, q):
    """A roll of a combination, with the instants its judgement looks at"""
    r, e = call(lambda: o.rollforward(t) if q == "fwd" else o.rollback(t), 20)
    if e == "RecursionError":
        return None        # periods that never meet
    c = {"k": q, "p": p, "t": inst(t), "r": iv_out(r, e), "inside": [], "gap": []}
    if not e:
        c["inside"] = [inst(x) for x in points_between(R, r.left, r.right)] + ([inst(r.left)] if r.left < r.right else [])
        lo, hi = (t, r.left) if q == "fwd" else (r.right, t)
        gap = points_between(R, lo, hi)
        if q == "fwd" and lo < hi:
            gap.append(lo)
        # ... and where the parts begin
        for x in leaves:
            if not hasattr(x, "rollforward"):
                continue
            y = lo
            for _ in range(12):
                y = x.rollforward(y).right
                if y >= hi:
                    break
                gap += [y] if y > lo else []
                z = x.rollforward(y).left
                gap += [z] if lo < z < hi else []
        c["gap"] = [inst(x) for x in gap]
    return c


def w_comb_roll(R):
    for _ in range(200):
        n = R.choice([2, 2, 3])
        same = R.random() < .4
        kinds = [R.choice(["hour", "day", "week", "month", "year"])] if same else ["hour", "day", "week", "month", "year"]
        parts = [anchored(R, kinds) for _ in range(n)]
        obj = [build(v) for _, v in parts]
        op = R.choice(["all", "any"])
        from rocketry.core.time.base import All, Any
        p = {"op": op, "ps": [x[0] for x in parts]}
        o = (All if op == "all" else Any)(*obj)
        t = instant(R, p["ps"])
        c = roll_case(R, p, o, obj, t, R.choice(["fwd", "fwd", "back"]))
        if c:
            return c


# ---------------------------------------------------------------- cron
FIELDS = ["minute", "hour", "dom", "month", "dow"]
CLO = {"minute": 0, "hour": 0, "dom": 1, "month": 1, "dow": 0}
CHI = {"minute": 59, "hour": 23, "dom": 31, "month": 12, "dow": 6}


def cron_field(R, f):
    if R.random() < .35:
        return [{"from": -1, "to": -1, "step": 1, "steps": False}], "*"
    items, txt = [], []
    lo, hi = CLO[f], CHI[f]

    def name(x):
        if f == "dow" and R.random() < .4:
            return R.choice([str.lower, str.upper, str.title])(DAYN[(x - 1) % 7][:3])
        if f == "month" and R.random() < .4:
            return R.choice([str.lower, str.upper, str.title])(MONN[x - 1][:3])
        return str(x)
    n = R.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        g = R.random()
        if g < .45:
            x = R.choice([lo, hi, R.randint(lo, hi)])
            items.append({"from": x, "to": x, "step": 1, "steps": False})
            txt.append(name(x))
        elif g < .85:
            a, b = sorted(R.sample(range(max(lo, 1 if f == "dow" else lo), hi + 1), 2))
            if f == "dow" and R.random() < .25:
                b = 0        # ... to Sunday
            st = R.choice([1, 1, 2, 3, 5])
            ws = st > 1 or R.random() < .1
            items.append({"from": a, "to": b, "step": st, "steps": ws})
            txt.append(f"{name(a)}-{name(b)}" + (f"/{st}" if ws else ""))
        else:
            st = R.choice([2, 3, 4, 5, 7, 10, 15])
            items.append({"from": -1, "to": -1, "step": st, "steps": True})
            txt.append(f"*/{st}")
    return items, ",".join(txt)


def cron_instant(R, p):
    t = instant(R)
    if R.random() < .75:
        def val(f):
            it = R.choice(p[f])
            if it["from"] < 0:
                return R.choice(range(CLO[f], CHI[f] + 1, it["step"]))
            a, b = it["from"], it["to"]
            return R.choice(range(a, b + 1, it["step"])) if a <= b else a
        for _ in range(10):
            try:
                t = t.replace(minute=val("minute"), hour=val("hour"), month=val("month"), day=val("dom") if R.random() < .7 else R.randint(1, 28))
                break
            except ValueError:
                pass
        if R.random() < .2:
            t += R.choice([TD(minutes=1), TD(minutes=-1), TD(hours=1), TD(days=1), -US])
    return t


def w_cron(R):
    from rocketry.time import Cron
    from rocketry.conds import crontime
    p, txt = {"op": "cron"}, []
    for f in FIELDS:
        p[f], s = cron_field(R, f)
        txt.append(s)
    t = cron_instant(R, p)
    how = R.choice(["class", "kw", "text"])
    if how == "class":
        r, e = call(lambda: aware(R, t) in Cron(*txt))
    elif how == "kw":
        names = ["minute", "hour", "day_of_month", "month", "day_of_week"]
        kw = {n: x for n, x in zip(names, txt) if x != "*" or R.random() < .3}
        r, e = call(lambda: aware(R, t) in Cron(**kw))
    else:
        s, t = session_at(t, R)
        r, e = call(lambda: crontime(" ".join(txt)).observe(session=s))
    return {"k": "in", "p": p, "t": inst(t), "r": {"e": e, "v": r} if not e else {"e": e}, "text": " ".join(txt)}


def w_cron_roll(R):
    from rocketry.time import Cron
    for _ in range(300):
        p, txt = {"op": "cron"}, []
        for f in FIELDS:
            p[f], s = cron_field(R, f)
            txt.append(s)
        t = cron_instant(R, p)
        c = roll_case(R, p, Cron(*txt), [], t, R.choice(["fwd", "back"]))
        if c:
            c["text"] = " ".join(txt)
            return c


# ---------------------------------------------------------------- floating periods, intervals, lengths
def w_delta(R):
    from rocketry.core.time import TimeDelta
    from rocketry.time import TimeSpanDelta
    t = instant(R)

    def length():
        return R.choice([TD(0), TD(seconds=R.randrange(1, 5)), TD(minutes=R.randrange(120)), TD(days=R.randrange(40), microseconds=R.randrange(10**6))])
    q = R.choice(["in", "back", "fwd"])
    if R.random() < .5:
        past, fut, ref = length(), length(), t
        p = {"op": "delta", "past": off(past), "future": off(fut), "ref": inst(ref)}
        o = TimeDelta(past if R.random() < .7 else -past, fut, reference=ref)
        edge = [ref - past, ref + fut]
    else:
        near, far, ref = length(), None if R.random() < .3 else length(), t
        if far is not None:
            near, far = sorted([near, far])
        p = {"op": "span", "near": off(near), "far": [] if far is None else off(far), "ref": inst(ref)}
        o = TimeSpanDelta(near, far, reference=ref)
        edge = [ref - near, ref + near] + ([ref - far, ref + far] if far is not None else [])
    if q == "in":
        x = R.choice(edge) + R.choice([0, 0, 1, -1]) * US if R.random() < .8 else ref + R.choice([1, -1]) * length()
        o = o.use_reference(ref) if R.random() < .5 else o
        r, e = call(lambda: x in o)
        return {"k": "delta", "q": q, "p": p, "t": inst(x), "r": {"e": e, "v": r} if not e else {"e": e}}
    r, e = call(lambda: o.rollback(t) if q == "back" else o.rollforward(t))
    return {"k": "delta", "q": q, "p": p, "t": inst(t), "r": iv_out(r, e)}


def w_iv(R):
    from rocketry.pybox.time.interval import Interval

    def one():
        a, b = sorted([R.randrange(8), R.randrange(8)])
        return {"l": a, "r": b, "closed": R.choice(["left", "left", "both", "right", "neither"])}
    a, b = one(), one()
    xs = list(range(-1, 9))

    def go():
        A, B = Interval(a["l"], a["r"], a["closed"]), Interval(b["l"], b["r"], b["closed"])
        try:
            c = A & B
            c = [{"l": c.left, "r": c.right, "closed": c.closed}]
        except ValueError:
            c = []
        return {"overlaps": A.overlaps(B), "and": c, "empty": A.is_empty, "isin": [x in A for x in xs]}
    r, e = call(go)
    return {"k": "iv", "a": a, "b": b, "xs": xs, "r": {"e": e, **(r or {})}}


UNITS = {"ms": ["ms", "millisecond"], "s": ["s", "sec", "secs", "second", "seconds"], "m": ["m", "min", "mins", "minute", "minutes"],
         "h": ["h", "hr", "hrs", "hour", "hours"], "d": ["d", "day", "days"]}


def w_td(R):
    from rocketry.pybox.time import to_timedelta
    parts, txt = [], []
    us = sorted(R.sample(list(UNITS), R.choice([1, 1, 2, 3])), key=list(UNITS).index, reverse=True)
    f = R.random()
    neg = False
    if f < .15:
        h, m, s = R.randrange(30), R.randrange(60), R.randrange(60)
        parts = [{"u": "h", "n": h * 1000}, {"u": "m", "n": m * 1000}, {"u": "s", "n": s * 1000}]
        q = R.choice([0, 0, 1, 999, 500])
        parts = [{**x, "q": q * (x["u"] == "s")} for x in parts]
        t = f"{h:02d}:{m:02d}:{s:02d}" + (f".000{q:03d}" if q else "")
        if R.random() < .4:
            d = R.randrange(10)
            parts.append({"u": "d", "n": d * 1000, "q": 0})
            t = f"{d} {R.choice(['d', 'day', 'days'])} {t}"
    else:
        for u in us:
            n = R.choice([1000, 2000, 1000 * R.randrange(1, 90), 1500, 250 * R.randrange(1, 40)])
            if u == "ms":
                n = 1000 * R.randrange(1, 900)
            q = R.choice([0, 0, 0, 500, 1, 999, 250, 40]) if u != "ms" else 0        # millionths of the unit
            parts.append({"u": u, "n": n, "q": q})
            x = f"{n // 1000}" if n % 1000 == q == 0 else f"{n // 1000}.{n % 1000:03d}{q:03d}".rstrip(R.choice(["0", ""]))
            txt.append(x + R.choice(["", " ", " "]) + R.choice(UNITS[u]))
        t = R.choice([" ", ", ", " "]).join(txt)
    if R.random() < .15:
        t, neg = "-" + t, True
    r, e = call(lambda: to_timedelta(t))
    return {"k": "td", "parts": parts, "neg": neg, "r": {"e": e, "v": off(r)} if not e else {"e": e}, "text": t}


WHAT = {f[2:]: globals()[f] for f in list(globals()) if f.startswith("w_")}


def run(case, scratch, on_hang):
    R = random.Random(case["seed"])
    return collect(lambda: WHAT[case["what"]](R), case["n"])
