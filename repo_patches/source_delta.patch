From d122023887fe2d5d96248f1c327f9dfe558a46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 01/43] fix: comparing a condition no longer changes the
 condition it was made from

The derived condition shared the comparison dict with the original.
---
 rocketry/core/condition/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..b63766f 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,7 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From 65d7a99028a1a75269641dc96de70d7f533d3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 02/43] fix: log the run id when a task succeeds by requesting
 exit or restart

The run was passed as the return value.
---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..87e3353 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -603,7 +603,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
-- 
2.43.0


From 8c4cac2800e1580934b618996e533546c8c0bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 03/43] fix: log the run id when a thread or process task fails
 before execution

---
 rocketry/core/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 87e3353..b8a4e7c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -683,7 +683,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +697,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +776,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 574b38dae5bb9e794675838af392a3b46fd96bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 04/43] fix: CommandTask no longer accumulates parameters to
 its command

A list command was extended in place on every run.
---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..75d7078 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,7 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                command = command + [param] + [val]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From 8e77bff668c424ad7f2da768eb30bb8d94a55a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 05/43] fix: Task.period with a status condition as the start
 condition

The conditions have no attribute kwargs, which crashed the condition check.
---
 rocketry/core/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b8a4e7c..9b195fb 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1353,14 +1353,15 @@ class Task(RedBase, BaseModel):
         session = self.session
 
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if cond.period is not None and (cond.task is None or session[cond.task] is self):
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
-                    task_periods.append(sub_stmt.period)
+                if isinstance(sub_stmt, TaskFinished):
+                    if sub_stmt.period is not None and (sub_stmt.task is None or session[sub_stmt.task] is self):
+                        task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
 
-- 
2.43.0


From 780d45012c7f5917163d080b5e955bed9c0dba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 06/43] fix: do not terminate runs that have already ended

A finished process run was logged as terminated on top of its own outcome.
---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 9b195fb..f8eebdc 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1018,7 +1018,8 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
-- 
2.43.0


From ca421856677b9ea799f629b12ab6073dcec00dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 07/43] fix: log the start and runtime of the run that finished

With parallel runs the start of the latest run was logged for all of them.
---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f8eebdc..a685fb3 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1162,7 +1162,7 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From cbab6a5ea7cac72fcd3e69872534b8a193e0b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 08/43] fix: union of periods skips intervals inside another
 one when rolling

The search stopped at the first interval that did not extend the found one.
---
 rocketry/core/time/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..faf3ffa 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -441,8 +441,6 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
@@ -470,8 +468,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0


From 0374f97856fc41c53c2deddaf5778377b79bb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 09/43] fix: membership of combined periods is checked from the
 periods themselves

Checking it via the next interval crashed (recursion, invalid interval) when the
periods do not overlap soon, ie. with cron expressions that have the 31st day in February.
---
 rocketry/core/time/base.py | 6 ++++++
 rocketry/time/cron.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index faf3ffa..e5d3cdf 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -294,6 +294,9 @@ class All(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, other):
+        return all(other in period for period in self.periods)
+
     def rollback(self, dt):
 
         # We solve this iteratively
@@ -399,6 +402,9 @@ class Any(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, other):
+        return any(other in period for period in self.periods)
+
     def rollback(self, dt):
         intervals = [
             period.rollback(dt)
diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..eac9ecc 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -26,6 +26,9 @@ class Cron(TimePeriod):
         # -: range of values
         # /: step values
 
+    def __contains__(self, dt):
+        return dt in self.get_subperiod()
+
     def rollforward(self, dt):
         "Get previous time interval of the period."
         return self.get_subperiod().rollforward(dt)
-- 
2.43.0


From 09462bc8ed6a56c6572a9ac83fe13e568b4e5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 10/43] fix: cron ranges with a step for days, months and week
 days

The numbers start from 1 (not from 0 as with hours and minutes) and a range from
Sunday (0) goes over the end of the week.
---
 rocketry/core/time/anchor.py | 12 ++++++++----
 rocketry/time/cron.py        | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/rocketry/core/time/anchor.py b/rocketry/core/time/anchor.py
index 615b8bd..b9529f6 100644
--- a/rocketry/core/time/anchor.py
+++ b/rocketry/core/time/anchor.py
@@ -114,10 +114,14 @@ class AnchoredInterval(TimeInterval):
         if isinstance(end, str):
             end = cls._unit_mapping[end.lower()]
 
-        periods = tuple(
-            cls.at(step)
-            for step in cls._unit_names[start:end:step]
-        )
+        units = cls._unit_names
+        if start is not None and end is not None and start >= end:
+            # The range is over the period (ie. from Sunday to Tuesday)
+            units = (units[start:] + units[:end])[::step]
+        else:
+            units = units[start:end:step]
+
+        periods = tuple(cls.at(unit) for unit in units)
         return Any(*periods)
 
     def set_start(self, val):
diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index eac9ecc..8648070 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -37,7 +37,7 @@ class Cron(TimePeriod):
         "Get previous time interval of the period."
         return self.get_subperiod().rollback(dt)
 
-    def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always):
+    def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always, first=0):
 
         conv = (lambda i: i) if conv is None else conv
         exprs = expression.split(",")
@@ -65,8 +65,12 @@ class Cron(TimePeriod):
                     # cron includes also the endpoint thus
                     # we convert to int (if needed) and add
                     # one
+                    if isinstance(start, int):
+                        start -= first
                     if isinstance(end, str):
                         end = cls._unit_mapping[end.lower()]
+                    else:
+                        end -= first
                     end += 1
                     period = cls.create_range(start, end, step=int(step))
                 else:
@@ -96,8 +100,8 @@ class Cron(TimePeriod):
     def get_subperiod(self):
         minutely = TimeOfMinute()
 
-        day_of_month = self._get_period_from_expr(TimeOfMonth, self.day_of_month)
-        day_of_week = self._get_period_from_expr(TimeOfWeek, self.day_of_week, conv=self._convert_day_of_week)
+        day_of_month = self._get_period_from_expr(TimeOfMonth, self.day_of_month, first=1)
+        day_of_week = self._get_period_from_expr(TimeOfWeek, self.day_of_week, conv=self._convert_day_of_week, first=1)
 
         if day_of_month is not always and day_of_week is not always:
             # Both specified: OR
@@ -109,6 +113,6 @@ class Cron(TimePeriod):
         return (
             (self._get_period_from_expr(TimeOfHour, self.minute) & minutely)
             & self._get_period_from_expr(TimeOfDay, self.hour)
-            & self._get_period_from_expr(TimeOfYear, self.month)
+            & self._get_period_from_expr(TimeOfYear, self.month, first=1)
             & day_of_week_month
         )
-- 
2.43.0


From b649fdf6ca949daf3796b7984ec723b565922912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 11/43] fix: roll month and year periods with the real lengths
 of months and years

Months without the last days (ie. 31st) produced invalid intervals and the years
without 29th of February were off by one day.
---
 rocketry/time/interval.py | 70 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 2 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..d294c5a 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,6 +1,7 @@
 import calendar
 import datetime
 import re
+from abc import abstractmethod
 from dataclasses import dataclass
 from typing import ClassVar, List
 
@@ -216,8 +217,48 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class _FloatingMixin:
+    """Rolling for the anchored intervals which cycle
+    does not have a fixed length (months and years)"""
+
+    @abstractmethod
+    def _get_cycle(self, dt, n) -> datetime.datetime:
+        "Get beginning of the nth cycle from the cycle of the dt"
+
+    @abstractmethod
+    def _to_offset(self, ms:int, cycle) -> int:
+        "Convert the anchored microseconds to microseconds from the beginning of given cycle"
+
+    def _get_interval(self, dt, n):
+        "Get start and end of the interval that starts on nth cycle from the cycle of the dt"
+        is_over_period = self._start >= self._end
+        start_cycle = self._get_cycle(dt, n)
+        end_cycle = self._get_cycle(dt, n + 1) if is_over_period else start_cycle
+        start = start_cycle + datetime.timedelta(microseconds=self._to_offset(self._start, start_cycle))
+        end = end_cycle + datetime.timedelta(microseconds=self._to_offset(self._end, end_cycle))
+        return start, end
+
+    def rollforward(self, dt):
+        "Get next time interval of the period"
+        n = -1
+        while True:
+            start, end = self._get_interval(dt, n)
+            if start < end and end > dt:
+                return Interval(max(start, dt), end, closed="left")
+            n += 1
+
+    def rollback(self, dt):
+        "Get previous time interval of the period"
+        n = 0
+        is_full = self.is_full()
+        while True:
+            start, end = self._get_interval(dt, n)
+            if start < end and (start < dt or (start == dt and not is_full)):
+                return Interval(start, min(end, dt), closed="both" if start == dt else "left")
+            n -= 1
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(_FloatingMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,6 +327,17 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
+    def _get_cycle(self, dt, n):
+        n_months = dt.year * 12 + dt.month - 1 + n
+        return dt.replace(
+            year=n_months // 12, month=n_months % 12 + 1, day=1,
+            hour=0, minute=0, second=0, microsecond=0
+        )
+
+    def _to_offset(self, ms, cycle):
+        # Not all of the months have the last days
+        return min(ms, self.get_scope_forward(cycle))
+
     def get_scope_forward(self, dt):
         n_days = calendar.monthrange(dt.year, dt.month)[1]
         return to_microseconds(day=1) * n_days
@@ -297,7 +349,7 @@ class TimeOfMonth(AnchoredInterval):
         return to_microseconds(day=1) * n_days
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(_FloatingMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +453,20 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def _get_cycle(self, dt, n):
+        return dt.replace(
+            year=dt.year + n, month=1, day=1,
+            hour=0, minute=0, second=0, microsecond=0
+        )
+
+    def _to_offset(self, ms, cycle):
+        # Only leap years have 29th of February
+        march = self._month_start_mapping[2]
+        one_day = to_microseconds(day=1)
+        if calendar.isleap(cycle.year) or ms <= march - one_day:
+            return ms
+        return max(ms, march) - one_day
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From dfa038feb399fe8555d4cea1713d8d4324935900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 12/43] fix: task conditions use the configuration of their own
 session

The option force_status_from_logs was read from the default session.
---
 rocketry/conditions/task/task.py  | 2 +-
 rocketry/conditions/task/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..a6e2268 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -167,7 +167,7 @@ class TaskRunning(BaseComparable):
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
         start, end = get_period_span(self.period, session=session)
         if allow_optimization:
             task = session[self.task] if self.task is not None else task
diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 637e424..9439526 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -63,7 +63,7 @@ class TaskStatusMixin(BaseComparable):
         task = session[self.task] if self.task is not None else task
         _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
 
         if allow_optimization:
 
-- 
2.43.0


From 1bf31b3de76edf26e4372ee4fb99b0fae1ca5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 13/43] fix: open-ended periods with a time zone

The limits had no time zone and comparing them with aware datetimes crashed, ie. the
condition for a running task.
---
 rocketry/core/time/base.py  | 11 +++++++----
 rocketry/core/time/utils.py |  4 +++-
 rocketry/time/delta.py      | 10 +++++-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index e5d3cdf..4b3267a 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -511,18 +511,21 @@ class StaticInterval(TimePeriod):
         start = to_datetime(self.start, timezone=tz)
         if start > dt:
             # The actual interval is in the future
-            return Interval(self.min, self.min)
+            limit = to_datetime(self.min, timezone=tz)
+            return Interval(limit, limit)
         end = to_datetime(self.end, timezone=tz)
         end = min(end, dt)
         return Interval(start, end)
 
     def rollforward(self, dt):
         dt = to_datetime(dt)
-        end = to_datetime(self.end)
+        tz = dt.tzinfo
+        end = to_datetime(self.end, timezone=tz)
         if end < dt:
             # The actual interval is already gone
-            return Interval(self.max, self.max)
-        start = max(self.start, dt)
+            limit = to_datetime(self.max, timezone=tz)
+            return Interval(limit, limit)
+        start = max(to_datetime(self.start, timezone=tz), dt)
         return Interval(start, end)
 
     @property
diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..0b64c6e 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -3,6 +3,7 @@ import time
 import datetime
 from typing import Tuple
 
+from rocketry.pybox.time import to_datetime
 from .base import TimePeriod
 
 def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetime, datetime.datetime]:
@@ -11,7 +12,8 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     from rocketry.parse import parse_time
 
     if period is None:
-        return TimePeriod.min, TimePeriod.max
+        tz = session.config.timezone if session is not None else None
+        return to_datetime(TimePeriod.min, timezone=tz), to_datetime(TimePeriod.max, timezone=tz)
     if isinstance(period, str):
         period = parse_time(period)
 
diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..69749e4 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass, field
 from typing import Callable, Union
 
 from rocketry.core.time import TimeDelta
-from rocketry.pybox.time import to_timedelta, Interval
+from rocketry.pybox.time import to_datetime, to_timedelta, Interval
 
 @dataclass(frozen=True, init=False)
 class TimeSpanDelta(TimeDelta):
@@ -27,23 +27,23 @@ class TimeSpanDelta(TimeDelta):
         "Check whether the dt is period"
         reference = self.get_reference()
         if reference >= dt:
-            start = reference - self.far if self.far is not None else self.min
+            start = reference - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
             end = reference - self.near
         else:
             start = reference + self.near
-            end = reference + self.far if self.far is not None else self.max
+            end = reference + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return start <= dt <= end
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From 89c3cb627da6836fea0e462fbd998801a74f553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:13 +0000
Subject: [PATCH 14/43] fix: log the failure of an async task that fails before
 its execution

---
 rocketry/core/task.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a685fb3..1c5358c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,21 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution == "async":
+                # Nothing waits for the run: the failure
+                # must be logged here
+                self.log_failure(task_run)
+            raise
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0


From 6c9810ae9f1488c2f7452880a1fffdc02511673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:13 +0000
Subject: [PATCH 15/43] fix: a forced shut down no longer makes the later ones
 forced

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..5e4bc9d 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -111,6 +111,7 @@ class Scheduler(RedBase):
         # Unsetting some flags
         self._flag_shutdown.clear()
         self._flag_restart.clear()
+        self._flag_force_exit.clear()
         self._flag_enabled.set()
 
         self.is_alive = True
-- 
2.43.0


From 0fa1b83ac9cbba3c6b83900c600911a0ce9af4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:13 +0000
Subject: [PATCH 16/43] fix: keep the return value of a process that ends while
 another one is being started

---
 rocketry/core/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1c5358c..e73a554 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1067,6 +1067,11 @@ class Task(RedBase, BaseModel):
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
+                if record.action == "success":
+                    # Another process finished meanwhile: its return value is
+                    # in the record (see Scheduler.handle_logs)
+                    task._handle_return(record.__return__)
+                    del record.__return__
                 try:
                     task.log_record(record)
                 except Exception as exc:
-- 
2.43.0


From 3edcc63e39dd6ec6e81f2f623f7ff8a29b73a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:46 +0000
Subject: [PATCH 17/43] fix: evaluate ParamExists as the scheduler does, and
 parse the name of the parameter as a whole

The condition only defined __bool__, so that observe, which the scheduler uses,
gave None; from a string its name was split into characters.
---
 rocketry/conditions/parameter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..8a6400e 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -82,8 +82,10 @@ class ParamExists(BaseCondition):
         self.param_keys = args
         self.param_values = kwargs
 
-    def __bool__(self):
-        params = self.session.parameters
+    def get_state(self, session=Session(default=None)):
+        if session is None:
+            session = self.session
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
@@ -96,7 +98,9 @@ class ParamExists(BaseCondition):
         return True
 
     @classmethod
-    def _from_list(cls, l:Union[tuple, list]):
+    def _from_list(cls, l:Union[str, tuple, list]):
+        if isinstance(l, str):
+            l = (l,)
         return cls(*l)
 
     @classmethod
-- 
2.43.0


From 62cceb81dda1a13d92a3bc5b94630e0caef35a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:46 +0000
Subject: [PATCH 18/43] fix: see the ends of runs that ended after the span of
 TaskRunning

With force_status_from_logs the records outside the span were not read, so that
runs already over were counted as running.
---
 rocketry/conditions/task/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index a6e2268..38a810d 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -178,8 +178,9 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: the runs may have finished after the span
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
         runs = []
@@ -202,7 +203,8 @@ class TaskRunning(BaseComparable):
         for record in records:
             action = get_field_value(record, "action")
             is_run = action == "run"
-            if not is_run:
+            created = get_field_value(record, "created")
+            if not is_run or created > to_timestamp(end):
                 continue
             if has_run_id:
                 run_id = get_field_value(record, "run_id")
@@ -210,7 +212,6 @@ class TaskRunning(BaseComparable):
                     runs.append(run_id)
             else:
                 # Less optimized, tries to guess which is the finish
-                created = get_field_value(record, "created")
                 for finish in finishes.copy():
                     if finish >= created:
                         # match
-- 
2.43.0


From f45bb6ac417e9808b31536d194e31e28a1793aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:31 +0000
Subject: [PATCH 19/43] fix: accept white space between parentheses in texts of
 conditions and periods

Parts with nothing but white space were parsed as conditions, so that '( (x) )'
was rejected.
---
 rocketry/parse/utils/string_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/utils/string_parser.py b/rocketry/parse/utils/string_parser.py
index 4a85bb7..7fbe4bc 100644
--- a/rocketry/parse/utils/string_parser.py
+++ b/rocketry/parse/utils/string_parser.py
@@ -33,7 +33,7 @@ class InstructionParser:
         v = Visitor(visit_types=(list,))
 
         # 1. Split closures
-        l = p.to_list(s)
+        l = _drop_blanks(p.to_list(s))
 
         # 2. Split operations
         v.assign_elements(l, self._split_operations)
@@ -137,6 +137,14 @@ class InstructionParser:
         return s
 
 
+def _drop_blanks(cont):
+    "Remove the white space there may be between parentheses"
+    return [
+        _drop_blanks(item) if isinstance(item, list) else item
+        for item in cont
+        if isinstance(item, list) or item.strip()
+    ]
+
 def _flatten_tuples(cont):
 
     for i, item in enumerate(cont):
-- 
2.43.0


From 03c3b9e5c30b59ed440fa3d3014ce201926409f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:31 +0000
Subject: [PATCH 20/43] fix: reject texts of conditions and periods that are no
 expressions

When an operator or an operand was missing ('x && y', 'x (y)', 'x ~ y') a part
of the text was silently dropped.
---
 rocketry/parse/utils/string_parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rocketry/parse/utils/string_parser.py b/rocketry/parse/utils/string_parser.py
index 7fbe4bc..4bdaa66 100644
--- a/rocketry/parse/utils/string_parser.py
+++ b/rocketry/parse/utils/string_parser.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, List
 
 from rocketry.pybox.string.parse import ClosureParser
 from rocketry.pybox.container.visitor import Visitor
+from .exception import ParserError
 
 
 class InstructionParser:
@@ -74,8 +75,10 @@ class InstructionParser:
             s = self._assemble_oper(s, oper_str=oper_str, oper_func=oper_func, side=oper_side)
 
         # TODO: Clean this mess (but be careful)
-
-        return s[0] if isinstance(s, tuple) else s
+        if len(s) != 1 or isinstance(s[0], str):
+            # Operator or operand missing (ie. "x y" or "x && y")
+            raise ParserError("Invalid expression: missing an operator or an operand")
+        return s[0]
 
     def _assemble_oper(self, s:list, oper_str:str, oper_func:Callable, side="both"):
         s = list(reversed(s))
@@ -83,6 +86,11 @@ class InstructionParser:
             pos = self._index(s, [oper_str])
 
             # Set the comparison object to "|" in the list
+            operands = {"both": (pos-1, pos+1), "right": (pos-1,), "left": (pos+1,)}[side]
+            if not all(0 <= i < len(s) for i in operands):
+                raise IndexError(f"Missing an operand for '{oper_str}'")
+            if any(isinstance(s[i], str) for i in operands):
+                raise ParserError(f"Invalid expression: missing an operand for '{oper_str}'")
 
             if side == "both":
                 obj = oper_func(s[pos+1], s[pos-1])
-- 
2.43.0


From f0e8f6a0aec23b222b2b5038bb97686594643c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:59 +0000
Subject: [PATCH 21/43] fix: give command tasks the default form of arguments

Without argform a command task with parameters always failed (None + str).
---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 75d7078..ca4ac7a 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From ee7ef6436e0568bcb7d0deea92a2961acac9f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:15 +0000
Subject: [PATCH 22/43] fix: the arguments of the session are not materialized
 when filtering them for a task

filter_keyword_args read the values of Parameters and materialized each
argument without its context: any command or code task failed when the
session had a parameter that needs one (ie. Arg or Return), and function
arguments were called for nothing.
---
 rocketry/core/utils/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/utils/meta.py b/rocketry/core/utils/meta.py
index 30b5b2b..0debba1 100644
--- a/rocketry/core/utils/meta.py
+++ b/rocketry/core/utils/meta.py
@@ -7,7 +7,9 @@ def filter_keyword_args(_func, _params:dict=None, **kwargs):
     """Filter only keyword arguments that the
     function requires."""
     if _params:
-        kwargs.update(_params)
+        # NOTE: the arguments in Parameters are kept as such
+        # (not materialized, there is no context here)
+        kwargs.update(_params.items())
     sig = inspect.signature(_func)
 
     kw_args = [
-- 
2.43.0


From 88a846262f5b30dfc0a1923be413f78d942432a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:53 +0000
Subject: [PATCH 23/43] fix: a missing return value is reported without the
 representation of the task

The representation of a task with piped arguments cannot be made without
the context: the KeyError turned to an AttributeError and a pipe did not
continue to its next argument.
---
 rocketry/args/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index 90b53b2..da671e2 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -179,7 +179,7 @@ class Return(BaseArgument):
             return session.returns[input_task]
         except KeyError:
             if self.default is NOTSET:
-                raise KeyError(f"Return value not found for {repr(task)}")
+                raise KeyError(f"Return value not found for {repr(self.task_name)}")
             return self.default
 
     def __repr__(self):
-- 
2.43.0


From 7f10b2441a6d4ca70aa6715549bf6cd281ea43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 24/43] fix: Session.run with tasks added or renamed during the
 run

Setting the tasks back raised KeyError for a task that was not there (by
its name) when the run began, and the rest of the tasks was left disabled.
---
 rocketry/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..4aacd24 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -290,7 +290,7 @@ class Session(RedBase):
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-            orig_vals[name] = {
+            orig_vals[task] = {
                 attr: val for attr, val in task.__dict__.items()
                 if attr not in ("status", "last_run", "last_success", "last_fail", "last_terminate")
             }
@@ -310,7 +310,8 @@ class Session(RedBase):
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
             for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+                # (nothing to set back for the tasks added during the run)
+                task.__dict__.update(orig_vals.get(task, {}))
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From 9f7635a6035443dff7ce6cacd2b37724d6f3d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:37 +0000
Subject: [PATCH 25/43] fix: run the task_init hooks of the session of the task

The hooks of the default session were run instead, also for tasks of
other sessions.
---
 rocketry/core/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index e73a554..330d92c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -304,12 +304,13 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
-        hooker.prerun(task=self)
-
         if kwargs.get("session") is None:
             warnings.warn("Task's session not defined. Creating new.", UserWarning)
             kwargs['session'] = _create_session()
+
+        hooker = _Hooker(kwargs['session'].hooks.task_init)
+        hooker.prerun(task=self)
+
         kwargs['name'] = self._get_name(**kwargs)
 
         if "permanent_task" in kwargs:
-- 
2.43.0


From bbedd43d9035331c5e036a83e29e59bc1b00b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:38 +0000
Subject: [PATCH 26/43] fix: config.use_instance_naming

Creating a task without a name always failed with it as the identity of
the task was not text, and it was read from the default session instead
of the session of the task.
---
 rocketry/core/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 330d92c..1ba4867 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -334,9 +334,9 @@ class Task(RedBase, BaseModel):
 
     def _get_name(self, name=None, **kwargs):
         if name is None:
-            use_instance_naming = self.session.config.use_instance_naming
+            use_instance_naming = kwargs['session'].config.use_instance_naming
             if use_instance_naming:
-                return id(self)
+                return str(id(self))
             return self.get_default_name(**kwargs)
         return name
 
-- 
2.43.0


From 00e37c411718373631add68de62c9c50142c3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 27/43] fix: rename tasks added to a session that has a task of
 their name

With task_pre_exist as 'rename' such a task (ie. from a Grouper) was
silently left out.
---
 rocketry/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index 4aacd24..07795e6 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -427,6 +427,11 @@ class Session(RedBase):
                 self.tasks.add(task)
             elif if_exists == 'raise':
                 raise KeyError(f"Task '{task.name}' already exists")
+            elif if_exists == 'rename' and task not in self.tasks:
+                # The validation picks a free name
+                task.session = self
+                task.name = task.name
+                self.tasks.add(task)
         else:
             self.tasks.add(task)
 
-- 
2.43.0


From 2062fb556532727ed50163ab543f6d7e677b75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 28/43] fix: start_cond of a Grouper given as text

The text was put in the condition as it is and checking the condition
failed.
---
 rocketry/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/application.py b/rocketry/application.py
index 4ebfefd..5b99877 100644
--- a/rocketry/application.py
+++ b/rocketry/application.py
@@ -9,6 +9,7 @@ from rocketry.log.log_record import LogRecord
 
 from rocketry.conditions import FuncCond
 from rocketry.parameters import FuncParam
+from rocketry.parse import parse_condition
 from rocketry import Session
 
 class _AppMixin:
@@ -36,7 +37,7 @@ class _AppMixin:
             if group.prefix:
                 task.name = group.prefix + task.name
             if group.start_cond is not None:
-                task.start_cond &= group.start_cond
+                task.start_cond &= parse_condition(group.start_cond, session=group.session)
             task.execution = group.execution if task.execution is None else task.execution
 
             self.session.add_task(task)
-- 
2.43.0


From e8ec881e7ad048b56d3487de16a74eec301e0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:38 +0000
Subject: [PATCH 29/43] fix: Session.run leaves no runs pending

If the scheduler stopped before a task was started (ie. an error in the
startup), the forced run stayed and took place the next time.
---
 rocketry/session.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index 07795e6..577b171 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -288,6 +288,7 @@ class Session(RedBase):
         from rocketry.conditions.scheduler import SchedulerCycles
 
         orig_vals = {}
+        forced = []
         for task in self.tasks:
             name = task.name
             orig_vals[task] = {
@@ -297,6 +298,7 @@ class Session(RedBase):
             if name in task_names:
                 if not obey_cond:
                     task.run()
+                    forced.append(task.batches[-1])
                 if execution is not None:
                     task.execution = execution
             else:
@@ -312,6 +314,11 @@ class Session(RedBase):
             for task in self.tasks:
                 # (nothing to set back for the tasks added during the run)
                 task.__dict__.update(orig_vals.get(task, {}))
+                # The task may not have got to run
+                task.batches[:] = [
+                    batch for batch in task.batches
+                    if not any(batch is other for other in forced)
+                ]
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From 2dc1885f928ea021060a1f42cd6a55a2b50d6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:04 +0000
Subject: [PATCH 30/43] fix: TaskCond with different parameters

Using a TaskCond with several sets of parameters raised an error as all
of its tasks had the same name.
---
 rocketry/conditions/meta.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index d12c585..59652a5 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -101,10 +101,16 @@ class TaskCond(BaseCondition):
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
 
+        # Different parameters need different tasks
+        name = base_name = f"_condition-{self._get_func_name(self.func)}"
+        n = 0
+        while name in self.session:
+            n += 1
+            name = f"{base_name} - {n}"
+
         new_self.task = _FuncTaskCondWrapper(
             func=self.func,
-            #on_exists="rename",
-            name=f"_condition-{self._get_func_name(self.func)}",
+            name=name,
             parameters=kwargs,
             session=self.session,
             **self.kwds_task
-- 
2.43.0


From e2e178c0e77ccaa67a5404669d6dcb305a2ba8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:04 +0000
Subject: [PATCH 31/43] fix: TaskCond given its function adds its syntax to its
 own session

The syntax was added to the default session instead.
---
 rocketry/conditions/meta.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index 59652a5..801c89c 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -86,6 +86,7 @@ class TaskCond(BaseCondition):
                  **kwargs):
         from rocketry.parse import parse_time
 
+        self.session = session
         self.func = func
         self.syntax = syntax
         self.active_time = parse_time(active_time, session=session)
@@ -95,8 +96,6 @@ class TaskCond(BaseCondition):
         if self.func is not None:
             self._set_parsing()
 
-        self.session = session
-
     def _set_task(self, *args, **kwargs) -> 'TaskCond':
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
-- 
2.43.0


From 12be3e25ac738177f0efe74473f680bb4dfd37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:10 +0000
Subject: [PATCH 32/43] fix: no crash is logged for a task that ended at the
 very time it began

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1ba4867..9b55c96 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -939,9 +939,11 @@ class Task(RedBase, BaseModel):
             if getattr(self, f"_last_{name}") is not None
         }
         if times:
+            # A run that ended at the very time it began (by the
+            # clock of the log) is not running anymore
             status = max(
                 times,
-                key=times.get
+                key=lambda name: (times[name], name != "run")
             )
             if status == "run":
                 # There has been a sudden crash
-- 
2.43.0


From 1d981da83794d44135898f277688d4fcebf137c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 33/43] fix: CommandTask with a timeout

---
 rocketry/tasks/command.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index ca4ac7a..dabf82b 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -84,7 +85,7 @@ class CommandTask(Task):
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=self._get_timeout())
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
@@ -98,6 +99,13 @@ class CommandTask(Task):
             raise OSError(f"Failed running command ({return_code}): \n{errs}")
         return outs
 
+    def _get_timeout(self) -> Optional[float]:
+        "Get the timeout in seconds (None if never)"
+        max_timeout = datetime.timedelta(milliseconds=2 ** 31 - 1) # Most that can be waited
+        if not self.timeout or self.timeout > max_timeout:
+            return None
+        return self.timeout.total_seconds()
+
     def postfilter_params(self, params: Parameters):
         # Only allows the task specific parameters
         # for simplicity
-- 
2.43.0


From 9aeb83f03b8c7c3bf52ea825a0ba014684cc3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 34/43] fix: CommandTask with a list as command and parameters
 that are not strings

---
 rocketry/tasks/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index dabf82b..bbea7a8 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,5 +1,6 @@
 
 import datetime
+import os
 import subprocess
 from typing import List, Optional, Union
 
@@ -80,6 +81,8 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
+                if not isinstance(val, (str, bytes, os.PathLike)):
+                    val = str(val)
                 command = command + [param] + [val]
 
         # https://stackoverflow.com/a/5469427/13696660
-- 
2.43.0


From 92b48beb18ce9b1337638e29ef32a760146bf5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:52 +0000
Subject: [PATCH 35/43] fix: a task whose start could not be logged does not
 run afterwards

---
 rocketry/core/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 9b55c96..a96fe58 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -487,6 +487,9 @@ class Task(RedBase, BaseModel):
 
             # Run the actual task
             if execution in ("main", "async"):
+                self._run_stack.append(task_run)
+                # Logging first: if it fails, the task must not run
+                self.log_running(task_run)
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -497,8 +500,6 @@ class Task(RedBase, BaseModel):
                 )
                 if execution == "async":
                     task_run.task = async_task
-                self._run_stack.append(task_run)
-                self.log_running(task_run)
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From 8339b1c40e4f8ec6612302643ecfc3c87bebd23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:52 +0000
Subject: [PATCH 36/43] fix: silence_task_logging silences also the logging of
 terminations

---
 rocketry/core/task.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a96fe58..f7ad0d0 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1038,14 +1038,20 @@ class Task(RedBase, BaseModel):
     async def _terminate_run(self, run:TaskRun, reason=None):
         "Terminate the whole run stack"
         try:
-            await run.terminate()
-        except asyncio.CancelledError:
-            # Async tasks raise CancelledError if terminated
-            self.log_termination(reason=reason, task_run=run)
-        else:
-            if run.is_process:
-                # Threaded tasks handle their termination themselves
+            try:
+                await run.terminate()
+            except asyncio.CancelledError:
+                # Async tasks raise CancelledError if terminated
                 self.log_termination(reason=reason, task_run=run)
+            else:
+                if run.is_process:
+                    # Threaded tasks handle their termination themselves
+                    self.log_termination(reason=reason, task_run=run)
+        except TaskLoggingError:
+            # Terminated but could not be logged
+            self.force_termination = False
+            if not self.session.config.silence_task_logging:
+                raise
 
 # Logging
     def _lock_to_run_log(self, log_queue):
-- 
2.43.0


From aa009025a6a641e3736daaafcf7f3201558f0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:52 +0000
Subject: [PATCH 37/43] fix: errors in logging the end of async and thread
 tasks are raised if not silenced

---
 rocketry/core/task.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f7ad0d0..d0955ca 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -63,6 +63,13 @@ class TaskRun:
             return not self.task.done()
         return self.task.is_alive()
 
+    def get_exception(self) -> Optional[Exception]:
+        "Get the error occurred in logging the run (if any)"
+        if self.is_async and self.task.done() and not self.task.cancelled():
+            exc = self.task.exception()
+            return exc if isinstance(exc, TaskLoggingError) else None
+        return self.exception
+
     async def terminate(self):
         task = self.task
         if self.is_async:
@@ -703,8 +710,10 @@ class Task(RedBase, BaseModel):
 
         try:
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="thread")
-        except Exception:
+        except Exception as exc:
             # Task crashed before actually running the execute.
+            if isinstance(exc, TaskLoggingError):
+                task_run.exception = exc
             try:
                 self.log_failure(task_run)
             except TaskLoggingError as exc:
@@ -1017,14 +1026,15 @@ class Task(RedBase, BaseModel):
             self._run_stack = [
                 run
                 for run in self._run_stack
-                if run.is_alive() or run.exception is not None
+                if run.is_alive() or run.get_exception() is not None
             ]
 
     def _check_exceptions(self):
         for run in self._run_stack.copy():
-            if run.exception:
+            exc = run.get_exception()
+            if exc is not None:
                 self._run_stack.remove(run)
-                raise run.exception
+                raise exc
 
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
-- 
2.43.0


From b06e79700502e6185cf0ac76a13cac03cfd17c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:28 +0000
Subject: [PATCH 38/43] fix: failing to log a termination does not leave the
 other runs unterminated

---
 rocketry/core/schedule.py | 9 ++++++++-
 rocketry/core/task.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5e4bc9d..48a404f 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -226,9 +226,16 @@ class Scheduler(RedBase):
 
     async def terminate_all(self, reason:str=None):
         """Terminate all running tasks."""
+        exception = None
         for task in self.tasks:
             if task.is_alive():
-                await self.terminate_task(task, reason=reason)
+                try:
+                    await self.terminate_task(task, reason=reason)
+                except TaskLoggingError as exc:
+                    # The rest must be terminated as well
+                    exception = exc
+        if exception is not None:
+            raise exception
 
     async def terminate_task(self, task, reason=None):
         """Terminate a given task."""
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index d0955ca..d48b476 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1038,11 +1038,18 @@ class Task(RedBase, BaseModel):
 
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
+        exception = None
         for run in self._run_stack:
             if run.is_alive():
-                await self._terminate_run(run, reason=reason)
+                try:
+                    await self._terminate_run(run, reason=reason)
+                except TaskLoggingError as exc:
+                    # The rest must be terminated as well
+                    exception = exc
         self._clean_run_stack()
         self.force_termination = False
+        if exception is not None:
+            raise exception
         #self._run_stack = [] # Does not work with threads
 
     async def _terminate_run(self, run:TaskRun, reason=None):
-- 
2.43.0


From 68b916da72b1409c08746682a95e04133a4b4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:17 +0000
Subject: [PATCH 39/43] fix: failing to log a record of a process does not
 leave the records of the others unlogged

---
 rocketry/core/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 48a404f..de914e9 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -264,6 +264,7 @@ class Scheduler(RedBase):
         """Handle the status queue and carries the logging on their behalf."""
         # TODO: This could be maybe done in the tasks
         queue = self._log_queue
+        exception = None
         while True:
             try:
                 record = queue.get(block=False)
@@ -292,7 +293,13 @@ class Scheduler(RedBase):
                     return_value = record.__return__
                     task._handle_return(return_value)
                     del record.__return__
-                self._log_task(task, "log_record", record)
+                try:
+                    self._log_task(task, "log_record", record)
+                except TaskLoggingError as exc:
+                    # The rest of the records must be logged as well
+                    exception = exc
+        if exception is not None:
+            raise exception
 
     async def _hibernate(self):
         """Go to sleep and wake up when next task can be executed."""
-- 
2.43.0


From b72cd5988d5d1507b810dddedbfe614833625d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:17 +0000
Subject: [PATCH 40/43] fix: a process that finished before it was terminated
 is not logged as terminated

---
 rocketry/core/task.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index d48b476..4368bb9 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -56,6 +56,9 @@ class TaskRun:
     event_running: Optional[threading.Event] = None
     exception: Exception = None
 
+    # Process related
+    is_finished: bool = False # Whether the finish has been logged
+
     def is_alive(self) -> bool:
         if self.is_main:
             return True
@@ -1063,7 +1066,13 @@ class Task(RedBase, BaseModel):
             else:
                 if run.is_process:
                     # Threaded tasks handle their termination themselves
-                    self.log_termination(reason=reason, task_run=run)
+
+                    # The process may have finished before it was terminated
+                    try:
+                        self.session.scheduler.handle_logs()
+                    finally:
+                        if not run.is_finished:
+                            self.log_termination(reason=reason, task_run=run)
         except TaskLoggingError:
             # Terminated but could not be logged
             self.force_termination = False
@@ -1149,6 +1158,11 @@ class Task(RedBase, BaseModel):
         cache_attr = f"_last_{record.action}"
         record_time = record.created
 
+        if record.action != "run":
+            for run in self._run_stack:
+                if run.is_process and run.task.pid == record.process:
+                    run.is_finished = True
+
         try:
             self.logger.handle(record)
         except Exception as exc:
-- 
2.43.0


From 0e2b9dc7556d6b6e468773348f9c0987d57b8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:58 +0000
Subject: [PATCH 41/43] fix: runtime in TaskLogRecord is in seconds

---
 rocketry/log/log_record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/log/log_record.py b/rocketry/log/log_record.py
index da321e9..27f4b1a 100644
--- a/rocketry/log/log_record.py
+++ b/rocketry/log/log_record.py
@@ -60,7 +60,7 @@ class TaskLogRecord(MinimalRecord):
     @validator("runtime", pre=True)
     def format_runtime(cls, value):
         if value is not None:
-            value = to_timedelta(value)
+            value = to_timedelta(value, unit="s")
         return value
 
 class MinimalRunRecord(MinimalRecord):
-- 
2.43.0


From e9b48bef63a056a5a93ddcc664f9d23c25e4e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 42/43] fix: log the records of processes whose task has been
 removed instead of crashing the scheduler

---
 rocketry/core/schedule.py |  9 +++++++++
 rocketry/core/task.py     | 12 +++++++++++-
 rocketry/session.py       |  5 +++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index de914e9..49bb61c 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -272,6 +272,15 @@ class Scheduler(RedBase):
                 break
             else:
                 self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
+                if record.task_name not in self.session:
+                    # The task was removed while its process was running
+                    try:
+                        self.session._log_removed_task(record)
+                    except Exception as exc:
+                        self.logger.exception(f"Logging failed for task '{record.task_name}'")
+                        if not self.session.config.silence_task_logging:
+                            exception = exc
+                    continue
                 task = self.session[record.task_name]
                 if record.action == "fail":
                     # There is a caveat in logging
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 4368bb9..0c22861 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1102,7 +1102,17 @@ class Task(RedBase, BaseModel):
             else:
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                if record.task_name == self.name:
+                    task = self
+                elif record.task_name in self.session:
+                    task = self.session[record.task_name]
+                else:
+                    # The task was removed while its process was running
+                    try:
+                        self.session._log_removed_task(record)
+                    except Exception as exc:
+                        err = exc
+                    continue
                 if record.action == "success":
                     # Another process finished meanwhile: its return value is
                     # in the record (see Scheduler.handle_logs)
diff --git a/rocketry/session.py b/rocketry/session.py
index 577b171..3a72ac3 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -451,6 +451,11 @@ class Session(RedBase):
             task = self[task]
         self.tasks.remove(task)
 
+    def _log_removed_task(self, record):
+        "Log a record of a process whose task has been removed from the session"
+        record.__dict__.pop("__return__", None)
+        logging.getLogger(self.config.task_logger_basename).handle(record)
+
     def task_exists(self, task: 'Task'):
         warnings.warn((
             "Method task_exists will be removed in the future version."
-- 
2.43.0


From 8d3673413027136785cfe89ad8c1bf9da6d29e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:41 +0000
Subject: [PATCH 43/43] fix: log the start of a run that fails to be set up
 while another run of the task is running

---
 rocketry/core/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 0c22861..8ea40e3 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -488,6 +488,8 @@ class Task(RedBase, BaseModel):
         #   - Then params and direct_params are fed to the execute method
         execution = self.get_execution()
         task_run = TaskRun(start=self.session.get_time(), task=None)
+        # With multilaunch there may be other runs running
+        was_running, is_logged = self.status == "run", False
         try:
             self.force_run = False
             params = self.get_extra_params(params, execution=execution)
@@ -500,6 +502,7 @@ class Task(RedBase, BaseModel):
                 self._run_stack.append(task_run)
                 # Logging first: if it fails, the task must not run
                 self.log_running(task_run)
+                is_logged = True
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -543,7 +546,7 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if self.status != "run" or (was_running and not is_logged):
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
-- 
2.43.0

