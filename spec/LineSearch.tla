--------------------------- MODULE LineSearch ---------------------------
(* The backtracking line search as a state machine over the answers of the
   objective function.  An answer is a class: "nan", "hi" (above the sufficient
   decrease line), "inf", "eq" (exactly on the line), "lo" (below it), "ninf".
   MaxTrial is 32 in the implementation.  The same module serves as exhaustive
   design model, as generator of answer sequences and (through TraceLS) as the
   reference for recorded searches. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTrial, Free       \* the first Free answers are arbitrary, later ones repeat or accept
Answers == {"nan", "hi", "inf", "eq", "lo", "ninf"}
Accepting == {"eq", "lo", "ninf"}
VARIABLES pc, hist, moved, stored
lsvars == <<pc, hist, moved, stored>>
LsInit == pc = "trial" /\ hist = <<>> /\ moved = 0 /\ stored = 0
Trial(a) == /\ pc = "trial" /\ Len(hist) < MaxTrial
            /\ hist' = Append(hist, a)
            /\ IF a \in Accepting THEN pc' = "ok" /\ moved' = Len(hist') /\ stored' = Len(hist')
                                  ELSE pc' = pc /\ UNCHANGED <<moved, stored>>
GiveUp == pc = "trial" /\ Len(hist) = MaxTrial /\ pc' = "fail" /\ UNCHANGED <<hist, moved, stored>>
LsNext == GiveUp \/ \E a \in Answers :
             /\ IF Len(hist) < Free THEN TRUE ELSE a \in {hist[Len(hist)], "lo", "eq"}
             /\ Trial(a)
LsSpec == LsInit /\ [][LsNext]_lsvars /\ WF_lsvars(LsNext)
First == pc = "ok" => /\ moved = Len(hist) /\ stored = moved /\ hist[moved] \in Accepting
                      /\ \A k \in 1 .. moved - 1 : hist[k] \notin Accepting
Kept == pc \in {"fail", "trial"} => /\ moved = 0 /\ stored = 0
                                    /\ \A k \in 1 .. Len(hist) : hist[k] \notin Accepting
Bounded == Len(hist) <= MaxTrial
Ends == <>(pc \in {"ok", "fail"})
Emit == pc \in {"ok", "fail"} => PrintT(<<"BEH", ToJson([hist |-> hist])>>)
=========================================================================
