#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED, TASK = "rocketry/core/schedule.py", "rocketry/core/task.py"
TS = "rocketry/test/schedule"
PROPS = []


def p(id, title, statement, over, text, why, files, mech, spec, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, spec=spec, note=note))


W = ("schedules", "histories", "configurations")
SN = ("The mechanism model Sched.tla is model-checked against the monitor within small bounds; its behaviours and random worlds are "
      "run on the real scheduler under a virtual clock and every trace is checked by TLC against Monitor.tla. "
      "Trusted: the recording harness; outside: real-time speed, kills within the first 20 ms of a process.")
SS = "Monitor.tla, Sched.tla"

p("P01", "Runs of a task never overlap unless it allows multiple launches",
  "A task whose effective multilaunch setting is off (its own setting, otherwise the session's) never has two of its runs under way at the same time, whatever starts them (start condition, manual request, start-up or shutdown) and however it is executed in parallel (async, thread, process).",
  W, "all interleavings of starts, requests, condition changes and ends of the runs of any mix of tasks",
  "Tests start one task once or twice in a fixed order; overlap depends on the interleaving of ends, requests and cycles, and on the configuration.",
  [SCHED, TASK], [("is_task_runnable", SCHED), ("is_alive / _run_stack", TASK)], SS, SN)
p("P02", "Each run is logged once as begun and once as ended, with its own outcome",
  "Every run of a task is logged with one 'run' record and then exactly one ending record that carries the same run id, the start time of that run and an end time; the ending is success if the body returned, fail if it (or obtaining its arguments) raised, inaction or terminate if it raised the corresponding exception, terminate if the scheduler stopped it. No run is logged without its body being executed for it once (except when preparing it failed or it was stopped before), and by the time the session has shut down no run is left without its ending.",
  W, "all mixes of executions, outcomes, simultaneous runs of the same task, terminations and shutdowns",
  "Tests check the records of single runs; pairing with several simultaneous runs, terminations in between and ends in the middle of a cycle is not sampled.",
  [TASK, SCHED, "rocketry/log/log_record.py"], [("log_running/log_success/... and TaskRun", TASK), ("handle_logs", SCHED)], SS, SN)
p("P03", "A task starts only when it is allowed to",
  "In the main phase a task starts only in a cycle during which either a manual request for it is pending, or it is enabled and its start condition is true; it starts at most once in a cycle, never while the scheduler is on hold, and tasks meant for start-up or shutdown never start in the main phase. A start condition whose evaluation fails does not start the task.",
  W, "all histories of condition values, enabling and disabling, holding and requests",
  "Tests cover single toggles; combinations of pending requests, disabling, holds, errors in conditions and phases are unbounded.",
  [SCHED, TASK], [("is_task_runnable, run_task_async, on_hold", SCHED), ("is_runnable, __bool__", TASK)], SS, SN)
p("P04", "A task that may start is started in that cycle, by priority",
  "A task that throughout a cycle may start (see P03), is not kept from it by a run of its own under way without multilaunch, nor by the limit of processes, does start in that cycle, whatever other tasks do. Tasks that start in the same cycle start in descending order of priority.",
  W, "all sets of tasks, priorities, outcomes of the other tasks and histories",
  "Starvation needs a particular combination of tasks, of priorities and of what happened earlier in the cycle.",
  [SCHED, "rocketry/session.py"], [("_hibernate/run_cycle loop over session.tasks", SCHED), ("priority sorting", "rocketry/session.py")], SS, SN)
p("P05", "The number of processes never exceeds the configured maximum",
  "At no time are more process runs under way, over all tasks of a session, than the configured maximum of processes; a task kept back by that limit stays pending and is started when there is room.",
  W, "all limits, sets of process tasks, simultaneous runs of the same task and orders in which processes end",
  "Tests start a fixed set of tasks; the limit has to hold for every interleaving of starts and ends, including several runs of the same task.",
  [SCHED], [("has_free_processors, n_alive", SCHED)], SS, SN)
p("P06", "Manual run requests are served exactly once, in order, with their parameters",
  "Every manual request to run a task leads to exactly one run, requests of the same task being served first come first served and each run getting the parameters given with its own request; requests also start a disabled task, do not change whether it is disabled, and survive until they can be served.",
  W, "all sequences of requests interleaved with runs, disabling, termination and cycles",
  "Tests queue one or two requests of an idle task; queues with runs in between and requests from within running tasks are not sampled.",
  [TASK, SCHED], [("batches, run, _get_direct_params", TASK)], SS, SN)
p("P07", "Runs are terminated exactly when they have to be",
  "A run of an async, thread or process task is stopped by the scheduler within the cycle in which termination of its task has been requested, its end condition is true or it has lasted longer than its timeout (its task's, otherwise the session's), with all runs of the task being stopped in the first two cases and only the overdue ones in the last. Otherwise it is left alone (shutdown aside): in particular a run is never stopped for the age of another run, and tasks that are permanent or whose timeout is 'never' are not stopped for their age.",
  W, "all histories of requests, end conditions, times and simultaneous runs, for all timeouts",
  "Tests terminate a single run; which of several runs is due, and what a request affects later on, depends on the history.",
  [SCHED, TASK], [("terminate_task / is_out_of_condition", SCHED), ("terminate, timeout", TASK)], SS, SN)
p("P08", "Status and last-run times of a task tell what is in its log, also after a crash",
  "After start-up, every cycle and the shutdown the status of each task is the latest action logged for it, each of its last-action times is the time of its latest record of that action, and it is reported alive with exactly as many runs as are under way. When a session starts and the log says that a task was running, a crash is logged for it, once, and for no other task.",
  ("schedules", "histories", "crash_points", "configurations"), "all histories of runs and all logs left by earlier sessions, including sessions that died in the middle of a run",
  "Tests set up a few hand-written logs; the cached status must agree with the log for every history, and after every crash point.",
  [TASK, "rocketry/core/log/adapter.py"], [("set_cached, _get_last_action", TASK), ("status property", TASK)], SS, SN)
p("P09", "Start-up, cycles and shutdown happen in order, and when told to",
  "A session goes through start-up, cycles and shutdown in this order; every enabled start-up (shutdown) task that may run is run in the start-up (shutdown) phase and only there, one without a start condition exactly once, and a disabled one is not. After the session has been told to shut down or restart, or its shutdown condition has become true, no further cycle begins than the one about to; it does not stop for any other reason; a restart starts it over.",
  W, "all configurations of start-up and shutdown tasks, orders of requests to stop and sequences of serves of the same session",
  "Tests run one start and stop; repeated serves, restarts, holds and stops from within tasks combine freely.",
  [SCHED, "rocketry/session.py"], [("startup, shutdown, _hibernate, check_shut_cond", SCHED)], SS, SN)
p("P10", "Shutdown leaves nothing running, and kills only what it may",
  "When a session has shut down none of its runs is under way and no run of it starts or logs afterwards. An ordinary shutdown waits for the runs to end, stopping only permanent tasks and runs due for termination anyway (timeout, end condition, request); a forced or instant shutdown stops all of them.",
  W, "all sets of runs under way when the shutdown begins, however long they last, and all ways to ask for the shutdown, also one after another in the same session",
  "Tests shut down with one task of each kind; what is under way at that point, and what happened in earlier shutdowns, is unbounded.",
  [SCHED, "rocketry/session.py"], [("shutdown, wait_task_alive, terminate_all", SCHED)], SS, SN)
p("P11", "Errors of tasks and conditions do not bring the scheduler down",
  "A failing task body, an error in obtaining its arguments and, when they are silenced, errors in conditions and in preparing a run never end the session or keep the other tasks from running; when not silenced, the error is raised from the session after an orderly shutdown. A task that asks the scheduler to exit makes it shut down without the session failing.",
  ("fault_sequences", "schedules", "configurations"), "all points at which tasks, arguments and conditions may raise, in all executions and combinations of the silencing options",
  "Tests raise from a few places one at a time, and not in combination with other tasks that are under way.",
  [SCHED, TASK], [("silence_cond_check / silence_task_prerun handling", SCHED), ("_run_as_main, _run_as_async", TASK)], SS, SN)
p("P13", "Return values: the last success of a task is what its return argument gives",
  "The return value available for a task is the value returned by its most recently successful run, for every execution (main, async, thread, process), untouched by runs that failed, were terminated or took no action, and by runs of other tasks.",
  W, "all sequences of outcomes, executions and simultaneous runs",
  "Tests read the value after one success.",
  [TASK, "rocketry/core/parameters/parameters.py", "rocketry/args/builtin.py"], [("_handle_return", TASK), ("returns", "rocketry/session.py")], SS, SN)
p("P34", "Tasks created or removed while the session runs take part exactly while there",
  "A task created while the session is running (by another task, a hook or anything else) takes part from the next cycle on just like those created before. A task removed from the session while it is running is not started in any later cycle; its runs under way go on, end by themselves and their ends are logged with their outcome as long as the session runs; what it had been asked for is dropped. Neither harms the session nor the other tasks. (What becomes of the runs of a removed task at shutdown is left open.)",
  W, "all sequences of creating and removing tasks of all executions, in the cycles and from within tasks, whatever is under way",
  "Tests create or remove one idle task; what is under way at that moment, and what ends or starts next, is not sampled.",
  ["rocketry/session.py", SCHED, TASK], [("add_task, remove_task", "rocketry/session.py"), ("run_cycle, handle_logs", SCHED), ("delete, _lock_to_run_log", TASK)], SS, SN)

try:
    from moreprops import add
    add(p)
except ImportError:
    pass


def main():
    PROPS.sort(key=lambda q: q["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in PROPS:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": list(q["over"]), "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": q["id"], "quick_cmd": f"bin/check {q['id']} quick", "thorough_cmd": f"bin/check {q['id']} thorough",
                     "technique": f"TLA+ specification ({q['spec']}) checked with TLC, bound to the code by trace checking and replay",
                     "level": "model_checking", "level_note": q["note"]} for q in PROPS],
         "not_applicable": [],
         "notes": "No hooks are needed: the harness uses the public interface of the package only."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for q in PROPS:
        assert len(q["title"]) <= 80, q["title"]


main()
