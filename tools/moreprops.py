"""The properties decided case by case (harness/pure.py)"""
T = "rocketry/time/interval.py"
B = "rocketry/core/time/base.py"
A = "rocketry/core/time/anchor.py"
TN = ("TimeP.tla says what the code should answer, with theorems about it checked by TLC (MCTime); the code is run on generated cases "
      "(every kind, bounds at the ends of days, months and years, leap days, wrapping) and TLC judges every recorded answer. Sampled, not exhaustive; "
      "years 1990 to 2100; daylight saving is outside.")


def add(p):
    p("P21", "A point in time belongs to a period exactly when its clock reads within it",
      "For every anchored period (minute, hour, day, week, month and year; between, after, before, on/at, starting, or whole; given as text or numbers, also wrapping around the end of its cycle) and every datetime, with or without a time zone, the datetime is in the period exactly when its position in the cycle is at or after the period's start and before its end (at or after the one or before the other when it wraps); a whole period contains every datetime, and an end in text without finer units takes in all of the last unit it names.",
      ("inputs",), "all periods that can be written and all datetimes", "Tests pick a dozen periods and datetimes each; off-by-one errors live at the ends of months, in leap years, in wrapping and at microseconds.",
      [A, T], [("__contains__, anchor_str, anchor_int", A)], "TimeP.tla", TN)
    p("P22", "Rolling a time forward or back finds the period's nearest interval",
      "Rolling a datetime forward with an anchored period gives the interval of the period the datetime is in, cut to begin at it, or else the next one to begin; rolling back gives the interval it is in, cut to end at it, or else the last one to have ended. The intervals given belong to the period, no interval in between is skipped, and the result has the time zone of the argument.",
      ("inputs",), "all periods that can be written and all datetimes", "Months and years of different lengths, wrapping periods and bounds exactly at the given datetime are not all sampled by tests.",
      [A, T, B], [("rollforward, rollback, next_start, prev_start, next_end, prev_end", A)], "TimeP.tla, MCTime.tla", TN)
    p("P23", "Combined periods are the intersection, the union and the spans they say",
      "A datetime is in A & B exactly when it is in both and in A | B exactly when it is in at least one of them; rolling a combination forward or back gives its nearest interval, as for a single period (P22); a period with fixed bounds contains exactly what lies between them; texts of periods combined with & and | and parentheses mean the corresponding combinations.",
      ("inputs",), "all combinations of periods and all datetimes", "Combinations are unbounded and intervals that touch or overlap in particular ways are needed to tell.",
      [B, "rocketry/time/construct.py"], [("All, Any, TimeInterval, StaticInterval", B), ("parser of texts", "rocketry/parse/time.py")], "TimeP.tla", TN)
    p("P24", "Cron expressions mean what cron says",
      "A datetime belongs to a cron expression exactly when its minute, hour and month match their fields and its day matches both day fields (if one of them is *) or either of them (if both are restricted), where fields may hold lists, ranges, wrapping ranges of week days, names and steps (steps over the whole week count from Monday; whether the last microsecond of a month belongs to it is left open); rolling forward (back) finds the next (previous) matching minutes.",
      ("inputs",), "all combinations of fields and all datetimes", "The number of combinations of lists, ranges, steps and names in five fields is unbounded.",
      ["rocketry/time/cron.py", "rocketry/time/construct.py"], [("Cron", "rocketry/time/cron.py"), ("crontab", "rocketry/time/cron.py")], "TimeP.tla", TN)
    p("P25", "Durations in text are read exactly, and time deltas span them",
      "A duration given as text (numbers with units from days to milliseconds in any of their spellings, combined, with decimals, as hours:minutes:seconds, or negative) is read as exactly the sum of its parts; a time delta contains, and rolls over, exactly that span before (or after) its reference, and a span with a near and a far bound exactly what lies between them.",
      ("inputs",), "all texts of durations and all reference times", "The spellings and their combinations are unbounded.",
      ["rocketry/pybox/time/convert.py", B], [("string_to_timedelta", "rocketry/pybox/time/convert.py"), ("TimeDelta", B)], "TimeP.tla", TN)

    CN = ("Hist.tla gives each condition as a function of the log and the time; MCHist model-checks what the conditions promise in every behaviour of a "
          "scheduler that follows them. The real scheduler is run under a virtual clock with logs of earlier sessions and random conditions (objects and texts) as start "
          "conditions and questions; TLC judges every answer and every start. Sampled histories of up to 60 records.")
    TT, UT = "rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py"
    H = ("histories", "schedules", "configurations")
    p("P15", "Conditions about a task's actions tell exactly what its log says",
      "Conditions about what a task has done (started, failed, succeeded, finished, terminated, inacted), with or without a period and with any comparisons of the number of times, are true exactly when the number of such records in the task's log within the period's latest stretch up to now compares so (at least once, if nothing is compared). The answer does not depend on whether statuses are cached or read from the log, on other sessions, or on how the condition is written; comparing a condition does not change it; and tasks started by such conditions start exactly when they are true.",
      H, "all logs (earlier sessions included), periods, comparisons and moments of asking", "The shortcuts for cached statuses depend on the comparison, the period and the history; tests sample one history per condition.",
      [UT, TT, "rocketry/core/condition/base.py"], [("TaskStatusMixin", UT), ("BaseComparable", "rocketry/core/condition/base.py")], "Hist.tla", CN)
    p("P16", "Periodic tasks run once a period, and every-so-often tasks so far apart",
      "A task that is to run once a period (minutely to monthly, also restricted to a part of it, on a cron schedule, or with retries) may start exactly while the period's current stretch lasts and it has neither succeeded, inacted nor been terminated in it, nor failed more often than its retries allow (for cron: has not started in it); a task that is to run every so often may start exactly when it has not started (succeeded, failed) within that time. So it succeeds at most once a period and starts at most once per interval.",
      H, "all periods, histories (also over restarts) and moments of asking", "Off-by-one periods need histories around the ends of stretches.",
      [TT, "rocketry/conditions/api.py"], [("TaskExecutable, TaskRunnable", TT), ("every, daily, ..., cron", "rocketry/conditions/api.py")], "Hist.tla, MCHist.tla", CN)
    p("P17", "Pipelines: a dependent task runs once for each new outcome of what it follows",
      "A condition 'after task X (succeeded, failed, finished)' of a task is true exactly when X has such an outcome later than the latest start of the task; combined with all or any over several tasks accordingly. So a dependent task starts once after each new outcome, and not again without one.",
      H, "all interleavings of the tasks' starts and ends, in this and earlier sessions", "Tests run a chain once or twice; repeated, overlapping and failing predecessors are not sampled.",
      [TT, UT, "rocketry/conditions/api.py"], [("DependSuccess, DependFailure, DependFinish", TT), ("DependMixin", UT)], "Hist.tla, MCHist.tla", CN)
    p("P18", "Retries: a failed task is retried at most as often as said",
      "A condition 'retry n' of a task is true exactly when the latest record of the task is a failure and it has failed at most n times in a row (any number of times if n is not given), so that a failure is followed by at most n retries until another outcome.",
      H, "all sequences of outcomes in this and earlier sessions", "Tests follow one or two fixed sequences of outcomes.",
      ["rocketry/conditions/task/task.py", "rocketry/conditions/api.py"], [("Retry", TT), ("retry", "rocketry/conditions/api.py")], "Hist.tla, MCHist.tla", CN)
    p("P20", "Time conditions tell whether the session's clock is in the period",
      "A condition about the current time (time of minute to month, any period, combined or cron, as object or text) is true exactly when the clock of the session, read in the session's time zone, is in the period, whatever other sessions there are and however the time is set; and a task with such a start condition starts in a cycle exactly when it is.",
      ("inputs", "schedules", "configurations"), "all periods, clocks and time zones, at all moments of asking", "Tests ask at a few moments around one period.",
      ["rocketry/conditions/time.py", "rocketry/conditions/api.py", "rocketry/session.py"], [("IsPeriod", "rocketry/conditions/time.py"), ("TimeCondWrapper", "rocketry/conditions/api.py"), ("_get_datetime_now", "rocketry/session.py")], "Hist.tla, TimeP.tla", CN)
    p("P28", "Conditions about running tasks count the runs under way",
      "A condition that a task is running (any, compared to a number, or for more than, less than, or between lengths of time) is true exactly when the number of its runs under way that began so long ago compares so, whether statuses are cached or read from a log with run ids.",
      H, "all mixes of simultaneous runs, their ages and moments of asking", "Several simultaneous runs of different ages, some ended, are needed to tell.",
      [TT, "rocketry/conditions/api.py"], [("TaskRunning", TT), ("RunningWrapper", "rocketry/conditions/api.py")], "Hist.tla", CN)
    p("P29", "Scheduler conditions tell its age and number of cycles",
      "Conditions about the scheduler are true exactly when the number of cycles it has completed compares as said, and when the time since its start is more than, less than, or between the lengths of time given.",
      H, "all numbers of cycles, ages and moments of asking", "Tests ask at one or two moments.",
      ["rocketry/conditions/scheduler.py"], [("SchedulerStarted, SchedulerCycles", "rocketry/conditions/scheduler.py")], "Hist.tla", CN)

    p("P30", "A condition checked by a task gives the task's latest result while it is valid",
      "A condition declared with TaskCond is true exactly when the task that checks it has succeeded, its latest success returned something true, and the time of that success is within the condition's active time (the span up to now, or the period given); failing checks change nothing. Each way the condition is used with other parameters has its own task and result, uses with the same text share them, and only the session it was declared for knows its syntax. A task started by such a condition starts exactly when it is true.",
      H, "all sequences of results, active times and moments of asking", "Tests use one condition with one result.",
      ["rocketry/conditions/meta.py", "rocketry/parse/utils/cond.py"], [("TaskCond, _FuncTaskCondWrapper", "rocketry/conditions/meta.py"), ("CondParser", "rocketry/parse/utils/cond.py")], "Hist.tla", CN)
    p("P19", "Conditions combine by Boolean logic, in text as in code",
      "A condition written as text, combining atoms with ~, & and | and parentheses (~ binding stronger than &, and & stronger than |), with white space anywhere between them, is true exactly when the Boolean expression of its atoms' states is; so is a condition combined in code with the operators or with All, Any and Not. Atoms may be constants, function conditions with their declared syntax and arguments, and conditions on parameters and environment variables. Combining conditions does not change the parts, and a text that is no expression is rejected when the task is made.",
      ("inputs",), "all expressions and all states of their atoms", "Expressions are unbounded; precedence and nesting errors show only in particular shapes and states.",
      ["rocketry/core/parse/utils.py", "rocketry/core/condition/base.py", "rocketry/parse/condition.py"],
      [("ParserPicker, parse", "rocketry/core/parse/utils.py"), ("All, Any, Not", "rocketry/core/condition/base.py"), ("FuncCond", "rocketry/conditions/func.py"), ("ParamExists, IsEnv", "rocketry/conditions/meta.py")], "Expr.tla",
      "Expr.tla reads the sequence of symbols itself (its own grammar) and evaluates it; random token sequences, valid and broken, are given to the parser and objects combined in all ways; TLC judges each answer. Sampled; up to some 25 symbols.")
    p("P12", "A run gets the parameters of its request, its task, then its session",
      "The body of every run gets, for each of its parameters, the value given with its request (run), or else that of the task (parameters, or the argument in its signature), or else that of the session; arguments (Arg, Return, EnvArg, FuncArg with arguments of their own, piped arguments with >>, task, session) take the value they have for this task and session when the run starts, with their defaults when there is none. Each request's parameters are used for one run only, requests in the order made; command tasks and code tasks get only what is given to them directly; a run whose arguments cannot be had fails without its body being reached; and no run changes the parameters of the session or its tasks. It is the same for all executions (main, async, thread, process) and kinds of tasks. (Whether a broken session parameter fails a thread or process that does not use it is left open.)",
      ("inputs", "configurations", "histories"), "all levels of parameters, kinds of arguments, tasks and executions, and sequences of settings and requests", "Tests set one level at a time in one execution; precedence, staging and leftovers of earlier runs show only in combination.",
      ["rocketry/core/task.py", "rocketry/core/parameters/parameters.py", "rocketry/args/builtin.py"],
      [("start_async, get_extra_params, _get_direct_params", "rocketry/core/task.py"), ("Parameters", "rocketry/core/parameters/parameters.py"), ("Arg, Return, EnvArg, FuncArg", "rocketry/args/builtin.py"), ("PipeArg", "rocketry/core/parameters/arguments.py"), ("CommandTask, CodeTask, FuncTask", "rocketry/tasks")], "Params.tla",
      "Params.tla is a state machine over settings, requests and runs that evaluates arguments; real sessions with up to three tasks of all kinds and executions do random sequences of them, and TLC follows every recorded sequence, comparing what each body received, the outcome and the parameters left behind.")
    p("P26", "Names of tasks are unique, and tasks are found by them",
      "Whatever is done to a session (tasks made of any kind and in any way, named explicitly, by their function or by their identity; renamed, removed, added again, included from groups), no two of its tasks have the same name, and looking a task up by its name or its function finds exactly the task of this name. A taken name is rejected, the task renamed with the lowest free number, or the task left out, as the session is configured; what is rejected changes nothing. Tasks of an included group get the group's prefix, execution (if they have none) and start condition besides their own, belong to the session then, and the group's parameters become the session's.",
      ("inputs", "histories", "configurations"), "all sequences of operations on sessions and groups, and all policies", "Tests try one clash per policy.",
      ["rocketry/session.py", "rocketry/core/task.py", "rocketry/application.py"],
      [("add_task, remove_task, __getitem__", "rocketry/session.py"), ("parse_name, validate_name", "rocketry/core/task.py"), ("include_grouper", "rocketry/application.py")], "Registry.tla, MCRegistry.tla",
      "Registry.tla is a state machine of sessions and tasks whose uniqueness invariants TLC checks for all sequences of up to 6 (7) operations; random sequences of operations are done on real sessions and TLC follows each, comparing what the sessions show after every step.")
    p("P27", "Running only some tasks runs exactly those and leaves the session as it was",
      "Session.run with the names of tasks runs each of them once (or once if its start condition is true and it is not disabled, when it is to obey conditions), with the execution given or else its own, and no other task; afterwards, also when an error stops it, the tasks' executions, conditions, whether they are disabled and their pending requests, and the session's shut condition are as before, and the statuses of the tasks tell what happened. (Tasks with requests already pending are outside.)",
      ("inputs", "configurations", "histories"), "all sets of tasks, their settings and outcomes, and the arguments of the run", "Tests run one or two tasks of one kind.",
      ["rocketry/session.py"], [("run", "rocketry/session.py")], "Registry.tla",
      "Registry.tla says what runs and what is kept; sessions of up to five tasks of all executions, outcomes and settings are run up to three times in a row and TLC judges each.")
    p("P14", "Hooks surround what they hook, in order",
      "Each time the scheduler starts up, does a cycle or shuts down, each hook of that kind is called once, in the order registered, before the tasks of it are looked at, and generator hooks are continued once, in the same order, after them (those of the shutdown when all runs are over); hooks of executions are called with the task before the body of every run, wherever it is executed, and continued after it with the exception that ended it or none; hooks of making tasks surround the making of every task of their session, and of no other, and see it complete afterwards. A run whose hook fails before its body fails without the body being reached. The callbacks of a task's class (success, failure, finish) are called once for each run before the hooks are continued.",
      ("schedules", "configurations"), "all numbers and kinds of hooks, executions and outcomes of runs, and interleavings of them", "Tests use one or two hooks of each kind and runs one at a time.",
      ["rocketry/core/hook.py", "rocketry/core/task.py", "rocketry/core/schedule.py"],
      [("_Hooker", "rocketry/core/hook.py"), ("__init__, _run_as_async", "rocketry/core/task.py"), ("startup, run_cycle, shut_down", "rocketry/core/schedule.py")], "Hooks.tla",
      "Hooks.tla is a state machine over the events of the scheduler, its hooks, runs and callbacks; sessions with up to four hooks of each kind and four tasks of all executions record their events and TLC follows every trace.")
    LA, LR, SC, TK = "rocketry/core/log/adapter.py", "rocketry/log/log_record.py", "rocketry/core/schedule.py", "rocketry/core/task.py"
    p("P31", "Records that cannot be written harm no other run, and no run is lost for them",
      "When records of tasks cannot be written to the log, whichever they are and in whatever execution the run is: a run whose start cannot be logged fails without its body being reached (a process, already under way, goes on), a run whose end cannot be logged has failed, no run has more than one ending, and nothing is left running when the session is over. If failures of logging are silenced the session goes on as if nothing had happened: every cycle takes place, the other tasks run as ever and the task itself may run again. If not, the failure is raised as TaskLoggingError from the session, after an orderly shutdown.",
      ("fault_sequences", "schedules", "configurations"), "all records that may fail to be written, in all phases, executions and outcomes of the runs, and both settings of silence_task_logging", "Tests fail one record of one task in a session of its own; failures during terminations, shutdowns and with other runs under way are not sampled.",
      [TK, SC], [("_set_status, log_record, _lock_to_run_log, _terminate_run, _check_exceptions", TK), ("run_task_async, handle_logs, terminate_task, _log_task", SC)], "Logs.tla, MCLogs.tla",
      "Logs.tla follows the records of each task, those that failed included, and says what the session has to do; MCLogs model-checks that a session which keeps to it always gets to its end. Sessions with up to four tasks of all executions, outcomes and phases, whose log refuses chosen records, are run and TLC judges each.")
    p("P32", "What is read from the log is exactly what was logged",
      "Reading the log (that of the session or of a task, its repository, all of it, by task and action, or the latest record) gives exactly the records logged up to then that are asked for, in the order logged for each task, with every field as logged: the time, the action, the message, the run id, the start of the run, its end and its running time, and the error of a failure (and of nothing else), whichever record model and repository it is kept in and wherever the run was executed. A session that starts over an existing log gives its tasks the status and last times that log tells.",
      ("histories", "configurations", "inputs"), "all histories of runs, record models, repositories and ways of asking", "Tests read the log of one run with one model.",
      [LA, LR, TK, "rocketry/session.py"], [("TaskAdapter", LA), ("MinimalRecord, LogRecord, TaskLogRecord, ...", LR), ("get_task_log, get_repo", "rocketry/session.py"), ("QueueHandler", "rocketry/log/handlers.py")], "Logs.tla",
      "Logs.tla says what each reading gives as a function of the records made; sessions of tasks of all executions and outcomes over memory and CSV repositories with all six record models are run, read in between and reopened, and TLC judges every reading.")
    p("P33", "Command and code tasks run what they say, and tell how it went",
      "Each run of a command task starts its command once, in its directory and environment, with its own arguments first and then one option for each of its parameters (made with the option form, unless the name is an option already) followed by its value; it succeeds with the output of the command exactly when that exits with 0 within the time allowed, and otherwise fails, telling the exit code and the errors printed. Each run of a code task executes the code with its parameters, and nothing else (nor anything of earlier runs or other tasks), as variables, and returns the value its output variable has in the end. It is the same for all executions.",
      ("inputs", "histories", "configurations"), "all commands, parameters, codes and outcomes, executions and sequences of runs", "Tests run one command and one code with one parameter once.",
      ["rocketry/tasks/command.py", "rocketry/tasks/code.py"], [("CommandTask.execute, get_kwargs_command", "rocketry/tasks/command.py"), ("CodeTask.execute", "rocketry/tasks/code.py")], "Work.tla",
      "Work.tla says what a command is called with and executes the statements of the code itself; sessions of random command and code tasks run in all executions with real subprocesses that report how they were called, and TLC judges each run.")
