"""Properties decided case by case: the code is run on generated cases, TLC judges every recorded outcome by the
specification (Cases.tla with the module's Judge)."""
import json, os, time
import lib

SPEC = {"ptime": "JudgeTime", "pcond": "JudgeHist", "pexpr": "JudgeExpr", "pparam": "JudgeParams", "psess": "JudgeRegistry", "phook": "JudgeHooks", "plog": "JudgeLogs", "pwork": "JudgeWork"}


def record(mod, what, n, seed, tmp, jobs=None):
    jobs = jobs or lib.NCPU
    per = max(1, n // (jobs * 2))
    cases = [{"kind": mod, "what": what, "seed": f"{seed}/{what}/{i}", "n": per} for i in range(max(1, n // per))]
    return [x for part in lib.run_cases(cases, tmp, jobs) for x in part]


def judge(module, cases, tmp, workers=None):
    f = os.path.join(tmp, f"cases{time.monotonic_ns()}.json")
    json.dump(cases, open(f, "w"))
    rc, out = lib.tlc(module, tmp=tmp, envs={"CASES": f}, workers=workers)
    os.unlink(f)
    bad = sorted({int(v) - 1 for v in lib.tla_values(out, "BAD")})
    gen, dist = lib.stats(out)
    chunks = (len(cases) + 39) // 40
    if rc != 0 or dist != 1 + chunks + len(cases):
        raise lib.CheckError(f"the cases could not be judged ({module}, exit {rc}, {dist} states for {len(cases)} cases):\n{out[-4000:]}")
    return bad, dist


def mc_time(c):
    """The theorems about TimeP itself, around the ends of months and years"""
    spans = [(19779, 19785)] if not c.thorough else [(19779, 19785), (19720, 19726), (47535, 47545), (11013, 11019), (19843, 19876), (20512, 20518)]
    for lo, hi in spans:
        cfg = os.path.join(c.tmp, f"mct{lo}.cfg")
        open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT FwdOk\nINVARIANT BackOk\nINVARIANT CalOk\nCONSTANTS\n"
                             f' KindsC = {{"minute","hour","day","week","month","year"}}\n DayLo = {lo}\n DayHi = {hi}\n')
        rc, out = lib.tlc("MCTime", cfg, tmp=c.tmp)
        if rc != 0:
            raise lib.CheckError(f"the specification breaks its own theorems:\n{out[-3000:]}")
        st = lib.stats(out)
        c.states += st[1]
        c.transitions += st[0]
        c.note("model_states", st[1])


def mc_hist(c):
    """What the conditions promise, in every behaviour of a scheduler that follows them (MCHist)"""
    runs = {"P16": [("period", 0, 6, 5, 8, 7), ("period", 1, 6, 4, 8, 6), ("every", 0, 6, 6, 9, 8)],
            "P17": [("pipeline", 0, 7, 0, 9, 1)], "P18": [("retry", n, 8, 0, 10, 1) for n in (0, 1, 2)]}[c.prop]
    for focus, n, ql, qt, tl, tt in runs:
        cfg = os.path.join(c.tmp, f"mch{focus}{n}.cfg")
        open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OncePerPeriod Apart OneForOne Bounded\nCONSTANTS\n"
                             f' Focus = "{focus}"\n N = {n}\n MaxLen = {tl if c.thorough else ql}\n MaxTicks = {tt if c.thorough else qt}\n')
        rc, out = lib.tlc("MCHist", cfg, tmp=c.tmp)
        if rc != 0:
            raise lib.CheckError(f"the specification breaks its own theorems:\n{out[-3000:]}")
        st = lib.stats(out)
        c.states += st[1]
        c.transitions += st[0]
        c.note("model_states", st[1])


def small(module, invariants, quick, thorough):
    """Model checks theorems about a module of the specification, within the bounds given"""
    def mc(c):
        cfg = os.path.join(c.tmp, module + "_q.cfg")
        consts = thorough if c.thorough else quick
        open(cfg, "w").write(f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS {invariants}\nCONSTANTS\n"
                             + "".join(f" {k} = {v}\n" for k, v in consts.items()))
        rc, out = lib.tlc(module, cfg, tmp=c.tmp)
        if rc != 0:
            raise lib.CheckError(f"the specification breaks its own theorems ({module}):\n{out[-3000:]}")
        st = lib.stats(out)
        c.states += st[1]
        c.transitions += st[0]
        c.note("model_states", st[1])
    return mc


mc_reg = small("MCRegistry", "Unique Knows AllIn", dict(MaxTasks=3, MaxOps=6), dict(MaxTasks=4, MaxOps=7))
mc_expr = small("MCExpr", "ReadsBack RejectsOthers", dict(N=2), dict(N=3))
mc_params = small("MCParams", "InOrder Once NoLeftovers", dict(MaxOps=6), dict(MaxOps=8))
mc_hooks = small("MCHooks", "Matched Bodies MainInside CanEnd", dict(MaxEv=13, MaxCyc=2), dict(MaxEv=19, MaxCyc=3))
mc_logs = small("MCLogs", "Judged CanEnd", dict(Names='{"a","b","c"}', N=2, MaxBad=1, Mode='"ok"'), dict(Names='{"a","b","c"}', N=2, MaxBad=2, Mode='"ok"'))

P = {  # property: (recorder, [(what, cases when quick)], model check or None)
    "P12": ("pparam", [("params", 1600)], mc_params),
    "P14": ("phook", [("hooks", 1500)], mc_hooks),
    "P15": ("pcond", [("status", 800), ("mixed", 400)], None),
    "P16": ("pcond", [("period", 1000)], mc_hist),
    "P17": ("pcond", [("depend", 1000)], mc_hist),
    "P18": ("pcond", [("retry", 1000)], mc_hist),
    "P20": ("pcond", [("clock", 1000)], None),
    "P26": ("psess", [("registry", 1500)], mc_reg),
    "P27": ("psess", [("run", 2000)], None),
    "P28": ("pcond", [("running", 800)], None),
    "P29": ("pcond", [("sched", 800)], None),
    "P30": ("pcond", [("bytask", 1200)], None),
    "P31": ("plog", [("faults", 2000)], mc_logs),
    "P32": ("plog", [("read", 2000)], None),
    "P33": ("pwork", [("work", 2500)], None),
    "P19": ("pexpr", [("text", 12000), ("objects", 8000)], mc_expr),
    "P21": ("ptime", [("in", 40000)], None),
    "P22": ("ptime", [("roll", 16000)], mc_time),
    "P23": ("ptime", [("comb_in", 5000), ("comb_roll", 5000), ("time_text", 3000), ("iv", 4000)], None),
    "P24": ("ptime", [("cron", 8000), ("cron_roll", 4000)], None),
    "P25": ("ptime", [("td", 15000), ("delta", 20000)], None),
}


def run(c):
    mod, whats, mc = P[c.prop]
    if mc:
        mc(c)
    for what, n in whats:
        cases = record(mod, what, n * (12 if c.thorough else 1), c.seed, c.tmp)
        bad = []
        size = 2000 if mod == "pcond" else 40000
        for i in range(0, len(cases), size):
            b, st = judge(SPEC[mod], cases[i:i + size], c.tmp)
            bad += [i + x for x in b]
            c.states += st
            c.transitions += st
        c.traces += len(cases)
        c.note("cases_" + what, len(cases))
        for x in cases[:1]:
            c.sample(x)
        for i in bad:
            c.violation(f"{what}:{json.dumps(cases[i].get('p', cases[i]), sort_keys=True)}"[:200].replace(" ", ""),
                        f"not what the specification says: {json.dumps(cases[i])}", cases[i])
