------------------------------ MODULE JudgeHooks ------------------------------
EXTENDS Hooks, Cases
===============================================================================
