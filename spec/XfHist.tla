------------------------------ MODULE XfHist ------------------------------
(* Generator of call histories over the transform families: every history of
   length L over set-ups (valid and refused), operator calls and destroys with
   at most one live DCT-based set and one live matrix set.  Printed as JSON. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L
Fams == {"dct1", "dct2", "tva", "tvs"}
Classes == {"scatter", "gather", "dense"}
VARIABLES liveD, liveM, hist
vars == <<liveD, liveM, hist>>
Init == liveD = "none" /\ liveM = "none" /\ hist = <<>>
Add(a) == hist' = Append(hist, a)
Next == /\ Len(hist) < L
        /\ \/ \E f \in Fams : liveD = "none" /\ liveD' = f /\ liveM' = liveM /\ Add("setup " \o f)
           \/ liveM = "none" /\ liveM' = "mat" /\ liveD' = liveD /\ Add("setup mat")
           \/ \E f \in {"dct", "tv", "mat"} : UNCHANGED <<liveD, liveM>> /\ Add("refused " \o f)
           \/ \E c \in Classes : liveD # "none" /\ UNCHANGED <<liveD, liveM>> /\ Add("D " \o c)
           \/ liveM # "none" /\ UNCHANGED <<liveD, liveM>> /\ Add("M any")
           \/ liveD # "none" /\ liveD' = "none" /\ liveM' = liveM /\ Add("destroy D")
           \/ liveM # "none" /\ liveM' = "none" /\ liveD' = liveD /\ Add("destroy M")
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = L => PrintT(<<"BEH", ToJson(hist)>>)
===========================================================================
