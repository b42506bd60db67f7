"""Random worlds.  Everything is drawn from the rng given."""

PROFILES = ("async", "thread", "process", "life", "recover")


def plan(rng, x, bias):
    out = rng.choices(["ok", "err", "inact", "selfterm", "exit"],
                      [5, 2, 1, 1, 2 if x == "main" and bias.get("exit") else 0])[0]
    if x == "main":
        hold = rng.choice([0, 0, 1, 2])
    elif x == "process":
        hold = rng.choice([1, 1, 2, 3, 5])
    else:
        hold = rng.choice([0, 1, 1, 2, 3, 5])
    if x != "main" and rng.random() < bias.get("long", .12):
        hold = rng.choice([9, 30, 45])
    mode = {"async": rng.choice(["cancel", "cancel", "linger", "swallow"]), "thread": rng.choice(["heed", "heed", "stubborn"])}.get(x, "-")
    cb = rng.choice(["none", "none", "success", "failure"]) if out == "err" else "none"
    return {"hold": hold, "out": out, "cb": cb, "mode": mode, "ret": rng.choice([1, 2, "v", None, 0, False]), "dt": rng.choice([0, 0, 1, 3]), "acts": []}


def act(rng, names, tspec, bias):
    t = rng.choice(names)
    if rng.random() < bias.get("dyn", 0):
        if tspec[t].get("late") and rng.random() < .6:
            return {"a": "add", "t": t}
        return {"a": "del", "t": t, "style": rng.choice(["name", "task", "self"])}
    k = rng.choices(["req", "cond", "end", "dis", "term", "hold"], bias.get("acts", [4, 4, 1.2, 1, 1, .6]))[0]
    if k == "req":
        return {"a": "req", "t": t, "style": rng.choice(["kw", "dict"])}
    if k == "cond":
        if tspec[t]["c0"] == "none":
            return {"a": "req", "t": t}
        v = rng.choices(["T", "F", "E"], [5, 4, bias.get("E", .3)])[0]
        return {"a": "cond", "t": t, "v": v}
    if k == "end":
        if tspec[t]["x"] == "process":
            return {"a": "term", "t": t}
        return {"a": "end", "t": t, "v": rng.choices(["T", "F", "E"], [4, 6, bias.get("E", .3) / 2])[0]}
    if k == "dis":
        return {"a": "dis", "t": t, "v": rng.random() < .4}
    if k == "term":
        return {"a": "term", "t": t}
    return {"a": "hold", "v": rng.random() < .4}


def world(rng, profile=None, bias=None):
    profile = profile or rng.choice(PROFILES)
    bias = dict(bias or {})
    par = {"async": "async", "thread": "thread", "process": "process"}.get(profile) or rng.choice(["async", "async", "thread"])
    bias.setdefault("exit", rng.random() < .25)
    nt = rng.randint(1, bias.get("nt", 4)) if par != "process" else rng.randint(1, 3)
    tasks = []
    for i in range(nt):
        x = par if rng.random() < .65 or bias.get("allproc") else rng.choice([par, "main", "async"])
        c0 = rng.choices(["none", "T", "F"], bias.get("c0", [2, 3, 3]))[0]
        special = rng.random() < (.45 if profile == "life" else bias.get("special", .12))
        su = special and rng.random() < .5
        sd = special and (not su or rng.random() < bias.get("both", .25))
        perm = x != "main" and rng.random() < .12
        to = rng.choices(["none", "never", "val"], [5, 1, 2])[0]
        t = {"name": f"t{i}", "x": x, "p": rng.choice([0, 0, 1, 2, -1]), "m": rng.choices(["none", "yes", "no"], [4, 2, 2])[0],
             "to": to, "ton": rng.choice([2, 4, 8, 20]), "perm": perm, "su": su, "sd": sd,
             "bad": rng.choices(["no", "get", "stage"], [1 - bias.get("bad", .1), bias.get("bad", .1), bias.get("bad", .1) if x in ("thread", "process") else 0])[0],
             "dis": rng.random() < .1, "c0": c0, "e0": "F", "hist": [], "sync": x in ("main", "async") and rng.random() < .3,
             "xdef": rng.random() < .3}
        if bias.get("dyn") and rng.random() < .4:
            t.update(late=True, su=False, sd=False)
        elif profile == "recover" or rng.random() < .1:
            k = rng.randint(1, 20)
            for _ in range(rng.randint(0, 3)):
                t["hist"].append(["run", k])
                k += rng.choice([0, 0, 1, 2, 3, 5, 9])      # 0: by a coarse clock
                if rng.random() < .75 or len(t["hist"]) > 3:
                    t["hist"].append([rng.choice(["success", "fail", "inaction", "terminate"]), k])
                    k += rng.randint(1, 9)
                else:
                    k += 1
                    t["hist"].append(["crash", k]) if rng.random() < .4 else None
                    k += 2
            k += 1
        t["plan"] = [plan(rng, x, bias if not sd else {**bias, "exit": False}) for _ in range(rng.randint(1, 3))]
        if t["bad"] != "no":
            for p in t["plan"]:
                p["good"] = rng.random() < .4       # not all of the runs are ill-fated
        if perm:
            for p in t["plan"]:
                p["hold"] = rng.choice([3, 45])
        tasks.append(t)
    tspec = {t["name"]: t for t in tasks}
    names = list(tspec)
    for t in tasks:
        for p in t["plan"]:
            if t["x"] in ("main", "async") and rng.random() < .2:
                a = act(rng, names, tspec, bias)
                if a["a"] != "term" and not (a["a"] == "cond" and a.get("v") == "E"):
                    p["acts"].append(a)
    cfg = {"multi": rng.random() < bias.get("multi", .3), "maxproc": rng.choice(bias.get("maxproc", [1, 2, 3, 8])), "timeout": rng.choice(bias.get("timeout", [3, 6, 12, 1000])),
           "instant": rng.random() < .2, "silcond": rng.random() < .75, "silpre": rng.random() < .75, "shutcyc": 0,
           "now": 100, "draindt": rng.choice([1, 1, 0, 2]), "logs": rng.random() < .15, "defx": rng.choice(["async", par])}
    if par == "process":
        # a process is not to be ended in the middle of its start (see DESIGN.md)
        cfg["silcond"] = True
        cfg["silpre"] = cfg["silpre"] or nt > 1
        first = rng.random() < .4
        for t in tasks:
            if first and t["x"] == "main":
                t["p"] = 5
            for p in t["plan"]:
                p["out"] = "ok" if p["out"] == "exit" and not first else p["out"]
                if t["x"] == "main" and rng.random() < .3:
                    p["acts"].append({"a": "relall"})
                if t["x"] == "process" and rng.random() < .3:
                    p["stagerel"] = True
        if any(t["sd"] and t["x"] == "process" for t in tasks):
            cfg["instant"], cfg["silpre"], bias["noforce"] = False, True, True
    nserve = rng.choice([1, 1, 1, 2, 3]) if profile in ("recover", "life") else rng.choices([1, 2], [6, 1])[0]
    if nserve == 1 and rng.random() < bias.get("shutcyc", .15):
        cfg["shutcyc"] = rng.randint(1, 8)
    serves = []
    for k in range(nserve):
        ncyc = rng.randint(1, 9)
        cyc = []
        for c in range(ncyc):
            acts = [act(rng, names, tspec, bias) for _ in range(rng.choices([0, 1, 2, 3], [4, 4, 2, 1])[0])]
            cyc.append({"dt": rng.choices([1, 2, 3, 10], [6, 2, 1, 1])[0], "acts": acts})
        last = {"a": "shut"}
        r = rng.random() if not bias.get("shutty") else rng.random() * .6 + .4
        restart = False
        if k + 1 < nserve and r < .5:
            last = {"a": "restart"}
            restart = True
        elif r > .7 and bias.get("noforce"):
            last = {"a": "shut", "force": False}
        elif r > .8:
            last = {"a": "shut", "force": True}
        elif r > .7:
            last = {"a": "shut", "force": False}
        cyc.append({"dt": 1, "acts": [last] + ([{"a": "shut"}] if last == {"a": "shut"} and not bias.get("noforce") and rng.random() < .2 else [])})
        if last in ({"a": "restart"}, {"a": "shut"}) and k + 1 < nserve and rng.random() < .3:       # told both
            both = [{"a": "restart"}, {"a": "shut", "force": False}]
            rng.shuffle(both)
            cyc[-1]["acts"], restart = both, False
        serves.append({"cycles": cyc, "more": k + 1 < nserve and not restart})
    return {"cfg": cfg, "tasks": tasks, "serves": serves, "profile": profile}
