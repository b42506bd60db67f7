"""Properties decided on Monitor.tla and Sched.tla: the design is model-checked, behaviours of the model are replayed on
the real code, and traces of random worlds run on the real code are checked against the monitor."""
import json, os, tempfile
import gen, lib, scripts

Q = '"'
FOC = {  # focus: constants of MCSched (quick), and what is different when thorough
    "mix":  (dict(Cfgs="CfgsMix", MaxCyc=2, MaxServe=1, MaxRuns=4, ActKinds='{"cond","req"}', Outs="OkOuts", DTs="One", DrainAt=2, Ends='{"shut"}'), dict(MaxCyc=3)),
    "out":  (dict(Cfgs="CfgsOut", MaxCyc=3, MaxServe=1, MaxRuns=2, ActKinds='{"req"}', Outs="AllOuts", DTs="One", DrainAt=2, Ends='{"shut"}'), dict(MaxRuns=3)),
    "cap":  (dict(Cfgs="CfgsCap", MaxCyc=3, MaxServe=1, MaxRuns=5, ActKinds='{"req"}', Outs="OkOuts", DTs="One", DrainAt=2, Ends='{"shut"}'), dict(MaxCyc=4, MaxRuns=6)),
    "req":  (dict(Cfgs="CfgsReq", MaxCyc=3, MaxServe=1, MaxRuns=4, ActKinds='{"req","dis"}', Outs="OkOuts", DTs="One", DrainAt=2, Ends='{"shut"}'), dict(MaxCyc=4, MaxRuns=5)),
    "term": (dict(Cfgs="CfgsTerm", MaxCyc=3, MaxServe=1, MaxRuns=2, ActKinds='{"req","term","end"}', Outs="OkOuts", DTs="OneFour", DrainAt=2, Ends='{"shut"}'), dict(MaxCyc=4, MaxRuns=3)),
    "life": (dict(Cfgs="CfgsLife", MaxCyc=1, MaxServe=2, MaxRuns=4, ActKinds='{"hold"}', Outs="ExitOuts", DTs="One", DrainAt=2, Ends='{"shut","force","restart","rsshut","shutrs"}'), dict(MaxCyc=2, MaxRuns=5)),
    "force": (dict(Cfgs="CfgsForce", MaxCyc=2, MaxServe=1, MaxRuns=3, ActKinds='{"req"}', Outs="ExitOuts", DTs="One", DrainAt=25, Ends='{"shut","force"}'), dict(MaxCyc=3)),
    "procs": (dict(Cfgs="CfgsProc", MaxCyc=3, MaxServe=1, MaxRuns=4, ActKinds='{"req"}', Outs="ExitOuts", DTs="One", DrainAt=2, Ends='{"shut"}'), dict(MaxCyc=5, MaxRuns=6)),
    "dyn":  (dict(Cfgs="CfgsDyn", MaxCyc=3, MaxServe=1, MaxRuns=4, ActKinds='{"dyn","req"}', Outs="OkOuts", DTs="One", DrainAt=2, Ends='{"shut"}'), dict(MaxCyc=4, MaxRuns=5)),
    "rec":  (dict(Cfgs="CfgsRec", MaxCyc=1, MaxServe=2, MaxRuns=4, ActKinds='{"req"}', Outs="OkOuts", DTs="One", DrainAt=2, Ends='{"shut","force","restart"}'), dict(MaxCyc=2)),
}
SIM = {  # for the scripts: longer behaviours
    "mix": dict(MaxCyc=5, MaxRuns=8, Outs="SimpleOuts"), "out": dict(MaxCyc=5, MaxRuns=7), "cap": dict(MaxCyc=5, MaxRuns=9),
    "req": dict(MaxCyc=6, MaxRuns=8), "term": dict(MaxCyc=5, MaxRuns=5), "life": dict(MaxCyc=3, MaxServe=3, MaxRuns=9),
    "force": dict(MaxCyc=3, MaxRuns=5), "procs": dict(MaxCyc=5, MaxRuns=8), "rec": dict(MaxCyc=3, MaxServe=3, MaxRuns=8), "dyn": dict(MaxCyc=6, MaxRuns=9),
}
MUT = {"span": "term", "norid": "out", "lost": "out", "outcome": "out", "killone": "term", "timeout": "term", "lasttime": "term",
       "created": "procs", "nocap": "cap", "overlap": "mix", "disabled": "req", "lifo": "req", "reqstay": "req", "nocrash": "rec",
       "autodis": "life", "reqlost": "req", "prio": "cap", "special": "life", "hold": "life", "skip": "cap", "noshut": "life",
       "nosd": "life", "noforce": "force", "leave": "life", "killall": "life", "nolastlogs": "procs", "norestart": "life", "rsfirst": "life",
       "dropgone": "dyn", "keepgone": "dyn", "noadd": "dyn"}
HANG = {"hang"}

P = {
    "P01": dict(clauses={"overlap"}, foc=["mix"], muts=["overlap"], prof={"async": 4, "thread": 4, "process": 2, "life": 2, "recover": 1},
                bias={"multi": .15, "special": .3, "both": .7, "long": .2}),
    "P02": dict(clauses={"dup_rid", "no_rid", "finish_unknown", "finish_twice", "finish_task", "outcome", "finish_early", "rec_span",
                         "rec_time", "unfinished", "body_unlogged", "body_twice", "body_after_finish", "late_record", "log",
                         "unknown_task"} | HANG,
                foc=["out", "procs"], muts=["span", "norid", "lost", "outcome", "created", "nolastlogs"],
                prof={"async": 4, "thread": 4, "process": 3, "life": 2, "recover": 2}, bias={"multi": .5, "bad": .15}, diff={"ends"}),
    "P03": dict(clauses={"start_unallowed", "start_twice", "start_phase"}, foc=["req"], muts=["disabled", "reqstay", "special", "hold", "autodis"],
                prof={"async": 4, "thread": 2, "process": 2, "life": 4, "recover": 1}, bias={"E": 1.5, "acts": [4, 4, 1.2, 1, 1, 2.5]}),
    "P04": dict(clauses={"start_missed", "prio", "startup_missed"}, foc=["cap", "mix"], muts=["prio", "skip", "reqlost"],
                prof={"async": 5, "thread": 3, "process": 3, "life": 2, "recover": 1}, bias={"nt": 5}, diff={"starts", "order"}),
    "P05": dict(clauses={"cap"}, foc=["cap"], muts=["nocap"], prof={"process": 1}, bias={"allproc": True, "maxproc": [1, 2, 2, 3], "special": .25}, n=.7),
    "P06": dict(clauses={"req_param", "req_missed", "req_extra"}, foc=["req"], muts=["lifo", "reqstay", "reqlost"],
                prof={"async": 4, "thread": 3, "process": 2, "life": 3, "recover": 1}, bias={"acts": [8, 1, .3, 1, .5, .4], "c0": [5, 1, 2]}),
    "P07": dict(clauses={"term_unjustified", "term_missed", "term_outcome"} | HANG, foc=["term"], muts=["killone", "timeout", "lasttime"],
                prof={"async": 4, "thread": 4, "process": 3, "life": 2, "recover": 1},
                bias={"acts": [4, 2, 3, .5, 3, .2], "long": .5, "timeout": [2, 3, 6, 1000], "multi": .5}),
    "P08": dict(clauses={"status", "last_times", "alive", "crash_spurious", "crash_missing"}, foc=["rec", "procs"], muts=["nocrash", "created"],
                prof={"async": 2, "thread": 2, "process": 2, "life": 1, "recover": 6}, bias={}),
    "P09": dict(clauses={"startup_missed", "start_special", "shutdown_missed", "start_phase", "phase_order", "not_stopped", "stopped_early", "restart_lost", "restart_unasked", "not_down"} | HANG,
                foc=["life"], muts=["noshut", "nosd", "special", "norestart", "rsfirst", "autodis"], prof={"life": 6, "async": 1, "thread": 1, "process": 1, "recover": 2},
                bias={"shutcyc": .3}, diff={"phases"}),
    "P10": dict(clauses={"alive_after", "unfinished", "sd_kill", "sd_left", "late_body", "late_record"} | HANG, foc=["life", "force"],
                muts=["leave", "killall", "noforce", "nolastlogs"], prof={"life": 4, "async": 3, "thread": 3, "process": 3},
                bias={"long": .5, "shutty": True}),
    "P11": dict(clauses={"scheduler_died", "error_lost", "phase_order", "unfinished", "start_missed", "not_stopped", "stopped_early"} | HANG, foc=["out"], muts=[],
                prof={"async": 4, "thread": 3, "process": 2, "life": 2, "recover": 1}, bias={"E": 3, "bad": .35, "exit": True}),
    "P34": dict(clauses={"start_removed", "start_missed", "removed_unlogged", "tasks", "scheduler_died", "phase_order", "stopped_early", "finish_unknown", "finish_twice",
                         "outcome", "finish_early", "unfinished", "unknown_task", "body_unlogged", "log", "status", "alive", "term_unjustified"} | HANG,
                foc=["dyn"], muts=["dropgone", "keepgone", "noadd"],
                prof={"async": 4, "thread": 3, "process": 4, "life": 2, "recover": 1}, bias={"dyn": .45, "nt": 5}, diff={"starts"}),
    "P13": dict(clauses={"returns"}, foc=["out"], muts=[], prof={"async": 4, "thread": 3, "process": 3, "life": 1, "recover": 2}, bias={"multi": .4}),
}


def model(c, foc, bug="none", thorough=False):
    consts = dict(FOC[foc][0])
    if thorough:
        consts.update(FOC[foc][1])
    p = tempfile.mktemp(suffix=".cfg", dir=c.tmp)
    open(p, "w").write(scripts.cfgfile(consts, bug))
    rc, out = lib.tlc("MCSched", cfg=p, tmp=c.tmp, timeout=3000, heap="8g")
    return rc, out, lib.stats(out)


def run_worlds(c, ws, d, scs=None):
    """Runs worlds on the real code, checks their traces. Violations are confirmed by running the world again."""
    res = lib.run_cases([{"kind": "worlds", "world": w} for w in ws], c.tmp)
    idx = [i for i, r in enumerate(res) if r]
    if len(idx) < len(ws) / 2 and not any("hang" == r["ev"][-1]["e"] for r in res if r and r["ev"]):
        raise lib.CheckError("most of the worlds were not run")
    verd, at, st = lib.check_traces([res[i] for i in idx], c.tmp)
    c.states += st
    c.transitions += sum(len(res[i]["ev"]) for i in idx)
    c.traces += len(idx)
    bad = []
    for i, v, a in zip(idx, verd, at):
        hit = v & d["clauses"]
        if v and not hit:
            c.note("traces_rejected_by_clauses_of_other_properties")
        if hit:
            bad.append((i, hit, a))
        elif scs is not None and not v:
            df, drift = scripts.differences(scs[i], res[i])
            if drift:
                c.note("replays_that_drift_from_the_model")
            if df & set(d.get("diff", ())):
                bad.append((i, {"replay:" + x for x in df & set(d["diff"])}, len(res[i]["ev"])))
    for i in idx[:2]:
        c.sample({"world": ws[i], "events": len(res[i]["ev"])})
    if bad and len(bad) < 3:
        # anything that depends on the speed of the machine would not come again
        again = []
        for i, hit, a in bad:
            for _ in range(2):
                r = lib.run_cases([{"kind": "worlds", "world": ws[i]}], c.tmp)[0]
                v = lib.check_traces([r], c.tmp)[0][0]
                if v & d["clauses"] or (scs is not None and not v and scripts.differences(scs[i], r)[0] & set(d.get("diff", ()))):
                    again.append((i, hit, a))
                    break
            else:
                c.note("not_reproduced")
        bad = again
    for i, hit, a in bad:
        ev = res[i]["ev"]
        c.violation("+".join(sorted(hit)), f"clauses {sorted(hit)} broken at event {a}: {json.dumps(ev[a - 1])[:300]}",
                    {"world": ws[i], "clauses": sorted(hit), "at": a, "events": ev})
    return bad


def run(c, d=None):
    d = d or P[c.prop]
    for f in d["foc"]:
        rc, out, st = model(c, f, thorough=c.thorough)
        if rc != 0:
            raise lib.CheckError(f"the model does not satisfy its monitor ({f}):\n{out[-3000:]}")
        c.note("model_states", st[1])
        c.states += st[1]
        c.transitions += st[0]
    if c.thorough:
        for b in d["muts"]:
            rc, out, st = model(c, MUT[b], b, True)
            if rc != 12:
                raise lib.CheckError(f"the wrong mechanism {b!r} was not detected in the model")
            c.note("wrong_mechanisms_detected")
    k = 12 if c.thorough else 1
    # behaviours of the model on the real code
    scs = []
    for f in d["foc"]:
        got, out = scripts.simulate({**FOC[f][0], **SIM.get(f, {})}, (150 * k) // len(d["foc"]) + 8, c.rng.randrange(1 << 30), c.tmp)
        scs += list({json.dumps(s, sort_keys=True): s for s in got}.values())
    ws = [scripts.to_world(s, c.rng) for s in scs]
    c.note("model_behaviours_replayed", len(ws))
    run_worlds(c, ws, d, scs)
    # random worlds
    profs, weights = list(d["prof"]), list(d["prof"].values())
    n = int((700 if not c.thorough else 6000) * d.get("n", 1))
    while n > 0 and not c.found:
        m = min(n, 1000)
        ws = [gen.world(c.rng, c.rng.choices(profs, weights)[0], d["bias"]) for _ in range(m)]
        run_worlds(c, ws, d)
        c.note("random_worlds", m)
        n -= m
    return "model_checking"
