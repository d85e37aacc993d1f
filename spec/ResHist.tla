------------------------------ MODULE ResHist ------------------------------
(* Histories of public calls, valid and refused, with at most one live DCT-based
   and one live matrix set.  Printed for replay against the real library. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L
VARIABLES liveD, liveM, hist
vars == <<liveD, liveM, hist>>
Init == liveD = FALSE /\ liveM = FALSE /\ hist = <<>>
Add(a) == hist' = Append(hist, a)
DSets == {"dct1", "dct2", "tva", "tvs"}
Solve == {"breg", "newton-ok", "newton-infeasible", "nesta-ok", "nesta-dims", "nesta-missing"}
Next == /\ Len(hist) < L
        /\ \/ \E f \in DSets : ~liveD /\ liveD' = TRUE /\ liveM' = liveM /\ Add("setup " \o f)
           \/ ~liveM /\ liveM' = TRUE /\ liveD' = liveD /\ Add("setup mat")
           \/ \E f \in {"dct", "tv", "mat"} : UNCHANGED <<liveD, liveM>> /\ Add("refused " \o f)
           \/ liveD /\ liveD' = FALSE /\ liveM' = liveM /\ Add("destroy D")
           \/ liveM /\ liveM' = FALSE /\ liveD' = liveD /\ Add("destroy M")
           \/ \E s \in {"l1qc-ok", "l1qc-infeasible", "l1qc-badidx", "l1qc-n0"} : ~liveD /\ UNCHANGED <<liveD, liveM>> /\ Add(s)
           \/ \E s \in Solve : UNCHANGED <<liveD, liveM>> /\ Add(s)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = L => PrintT(<<"BEH", ToJson(hist)>>)
============================================================================
