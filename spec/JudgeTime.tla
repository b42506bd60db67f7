------------------------------ MODULE JudgeTime ------------------------------
EXTENDS TimeP, Cases
==============================================================================
