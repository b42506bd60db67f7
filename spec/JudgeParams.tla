------------------------------ MODULE JudgeParams ------------------------------
EXTENDS Params, Cases
================================================================================
