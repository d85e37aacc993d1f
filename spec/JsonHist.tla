------------------------------ MODULE JsonHist ------------------------------
(* Every document kind followed by every pair of extractions. *)
EXTENDS JsonVals, Integers, Sequences, TLC, Json
CONSTANT L
VARIABLES doc, ops
vars == <<doc, ops>>
Init == doc \in Docs /\ ops = <<>>
Next == /\ Len(ops) < (IF doc = "object" THEN L ELSE 1) /\ \E x \in Extractors, f \in Fields : ops' = Append(ops, <<x, f>>) /\ doc' = doc
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = (IF doc = "object" THEN L ELSE 1) => PrintT(<<"BEH", ToJson(<<doc, ops>>)>>)
============================================================================
