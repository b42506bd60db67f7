"""Behaviours of the mechanism model (Sched.tla) as worlds for the real code, and what the model predicts of them."""
import collections, json, random, re
import lib

NAMES = ("Cfgs", "Outs", "DTs")


def cfgfile(consts, bug="none", emit=False):
    s = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Conforms\n" + ("" if emit else "VIEW View\n") + "CONSTANTS\n"
    for k, v in {**consts, "Bug": f'"{bug}"', "Emit": "TRUE" if emit else "FALSE"}.items():
        s += f"  {k} {'<-' if k in NAMES else '='} {v}\n"
    return s


def simulate(consts, n, seed, tmp, workers=None, depth=400):
    """-> (scripts, output of TLC)"""
    import os, tempfile
    p = tempfile.mktemp(suffix=".cfg", dir=tmp)
    open(p, "w").write(cfgfile(consts, emit=True))
    workers = workers or lib.NCPU
    rc, out = lib.tlc("MCSched", cfg=p, tmp=tmp, workers=workers,
                      args=["-simulate", f"num={max(1, n // workers)}", "-depth", str(depth), "-seed", str(seed)])
    if rc != 0:
        raise lib.CheckError(f"simulation of the mechanism model failed (exit {rc}):\n{out[-3000:]}")
    res = []
    for m in re.findall(r'<<\s*"SCRIPT",\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        res.append(json.loads(json.loads('"' + m + '"')))
    os.unlink(p)
    return res, out


def lst(x):
    """An empty function prints as an empty sequence"""
    return x if isinstance(x, list) else [x[k] for k in sorted(x, key=int)]


def to_world(sc, rng):
    cfg = sc["cfg"]
    tasks = []
    runs = sc["runs"] if isinstance(sc["runs"], dict) else {}
    for n, t in cfg["tasks"].items():
        mine = sorted((r for r in runs.values() if r["t"] == n), key=lambda r: r["n"])
        plan = []
        for r in mine:
            hold = 99 if r["hold"] < 0 else r["hold"]
            p = {"hold": 0 if t["x"] == "main" else hold, "out": r["out"],
                 "mode": {"async": "cancel", "thread": r["mode"]}.get(t["x"], "-"), "ret": 1, "dt": 0, "acts": []}
            if t["x"] == "main" and r["mode"] == "rel":
                p["acts"] = [{"a": "relall"}]
            plan.append(p)
        plan = plan or [{"hold": 0 if t["x"] == "main" else 99, "out": "ok", "mode": "cancel" if t["x"] == "async" else "heed", "ret": 1, "dt": 0, "acts": []}]
        hist = sorted(([a, k] for a, k in t["h0"].items() if k >= 0), key=lambda x: x[1])
        tasks.append({"name": n, "x": t["x"], "p": t["p"], "m": t["m"], "to": t["to"], "ton": t["ton"], "perm": t["perm"],
                      "su": t["su"], "sd": t["sd"], "bad": "no", "dis": t["dis"], "c0": t["c0"], "e0": t["e0"], "hist": hist, "late": t["late"],
                      "sync": t["x"] == "main", "plan": plan})
    rng.shuffle(tasks)
    serves = []
    for sv in lst(sc["script"]):
        cyc = []
        for c in lst(sv):
            acts = []
            for a in lst(c["acts"]):
                a = dict(a)
                if a["a"] in ("req", "del"):
                    a["style"] = rng.choice(["kw", "dict"] if a["a"] == "req" else ["name", "task", "self"])
                acts.append(a)
            cyc.append({"dt": c["dt"], "acts": acts})
        serves.append({"cycles": cyc, "more": True})
    for k, sv in enumerate(serves):
        last = sv["cycles"][-1]["acts"] if sv["cycles"] else []
        sv["more"] = k + 1 < len(serves) and {a["a"] for a in last} & {"restart", "shut"} != {"restart"}
    c = {k: cfg[k] for k in ("multi", "maxproc", "timeout", "instant", "silcond", "silpre", "shutcyc", "now")}
    c.update(draindt=0, logs=False, defx="async")
    return {"cfg": c, "tasks": tasks, "serves": serves, "profile": "script"}


def groups(ev):
    out = []
    for e in ev:
        if e["e"] in ("startup0", "cyc0", "cyc1", "shutdown0"):
            out.append([])
        elif e["e"] == "rec" and out:
            out[-1].append((e["t"], e["act"]))
    return out


def differences(sc, trace):
    """What the code did otherwise than the model -> (kinds of difference, whether the two merely drifted).
    Which runs are started and how they end must agree over each serve; a run that ends or starts a phase earlier or
    later than in the model is not a difference (how many turns the event loop takes is not specified)."""
    want = [[tuple(x) for x in lst(g)] for g in lst(sc["pred"])]
    got = groups(trace["ev"])
    C = collections.Counter
    d = set()
    drift = len(want) != len(got) or any(C(w) != C(g) for w, g in zip(want, got))
    if len(want) != len(got):
        d.add("phases")
    w, g = ([x for y in z for x in y] for z in (want, got))
    if C(t for t, a in w if a == "run") != C(t for t, a in g if a == "run"):
        d.add("starts")
    elif not drift:
        if any([t for t, a in x if a == "run"] != [t for t, a in y if a == "run"] for x, y in zip(want, got)):
            d.add("order")
    if "starts" not in d and C(x for x in w if x[1] != "run") != C(x for x in g if x[1] != "run"):
        d.add("ends")
    return d, drift
