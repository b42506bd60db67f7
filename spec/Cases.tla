-------------------------------- MODULE Cases --------------------------------
(* What a module with Judge(case) makes of the cases recorded from the code (a JSON file).  One state per case, in chunks,
   so that all of TLC's workers take part.  Judge(_) is a constant of the configuration. *)
EXTENDS TLC, IOUtils, Json
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
CONSTANT JudgeOf(_)
VARIABLE at
All_ == JsonDeserialize(IOEnv.CASES)
Chunk == 40
InitC == at = 0
NextC == \/ at = 0 /\ at' \in {0 - n : n \in 1..((Len(All_) + Chunk - 1) \div Chunk)}
         \/ at < 0 /\ at' \in {j \in ((0 - at - 1) * Chunk + 1)..((0 - at) * Chunk) : j <= Len(All_)}
Verdict == at > 0 => JudgeOf(All_[at]) \/ PrintT(<<"BAD", at>>)
SpecC == InitC /\ [][NextC]_at
==============================================================================
