---------------------------- MODULE JudgeRegistry ----------------------------
EXTENDS Registry, Cases
==============================================================================
