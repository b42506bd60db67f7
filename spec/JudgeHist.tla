------------------------------ MODULE JudgeHist ------------------------------
EXTENDS Hist, Cases
==============================================================================
