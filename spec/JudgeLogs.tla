------------------------------- MODULE JudgeLogs -------------------------------
EXTENDS Logs, Cases
================================================================================
