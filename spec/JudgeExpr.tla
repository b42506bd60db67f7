------------------------------ MODULE JudgeExpr ------------------------------
EXTENDS Expr, Cases
==============================================================================
