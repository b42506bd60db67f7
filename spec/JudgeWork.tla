------------------------------- MODULE JudgeWork -------------------------------
EXTENDS Work, Cases
================================================================================
