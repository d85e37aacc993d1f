------------------------------ MODULE LogHist ------------------------------
(* Histories of sink replacements, direct messages and solver calls with every
   verbosity class, printed for replay.  Sink 4 is the default, printf. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L
VARIABLE hist
Init == hist = <<>>
Acts == {"replace 0", "replace 1", "replace 2", "replace 4", "say"} \cup
        {s \o v : s \in {"cg ", "cgp ", "newton ", "dct ", "nesta ", "breg ", "ls "}, v \in {"0", "1", "2", "v"}}
Next == Len(hist) < L /\ \E a \in Acts : hist' = Append(hist, a)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = L => PrintT(<<"BEH", ToJson(hist)>>)
============================================================================
