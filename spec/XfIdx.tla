------------------------------- MODULE XfIdx -------------------------------
(* Every ordered sample set of a signal with at most N elements: all sequences of
   distinct positions, in every order, for every signal length. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLES tot, idx
Init == tot \in 1 .. N /\ idx = <<>>
Taken == {idx[k] : k \in 1 .. Len(idx)}
Next == \E k \in (0 .. tot - 1) \ Taken : idx' = Append(idx, k) /\ tot' = tot
Spec == Init /\ [][Next]_<<tot, idx>>
Distinct == \A a, b \in 1 .. Len(idx) : a # b => idx[a] # idx[b]
Emit == Len(idx) > 0 => PrintT(<<"BEH", ToJson([tot |-> tot, idx |-> idx])>>)
============================================================================
