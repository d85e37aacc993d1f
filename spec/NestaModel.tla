--------------------------- MODULE NestaModel ---------------------------
(* (1) the circular value window refines "the last K pushed values", for every
   push history; (2) the control skeleton: exactly NC stages, each ended by
   convergence or by the inner limit, the exponent of the smoothing factor
   equal to the stage number (so that the last stage runs with the requested
   mu), a fresh window and gradient sum per stage. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, Vals, NC, MaxInner
VARIABLES buf, next, total, hist, stage, inner, muexp, sumlen, pc
vars == <<buf, next, total, hist, stage, inner, muexp, sumlen, pc>>
Zero == [j \in 1 .. K |-> 0]
Init == buf = Zero /\ next = 1 /\ total = 0 /\ hist = <<>> /\ stage = 0 /\ inner = 0 /\ muexp = 0 /\ sumlen = 0 /\ pc = "outer"
Begin == /\ pc = "outer" /\ stage < NC
         /\ stage' = stage + 1 /\ muexp' = muexp + 1
         /\ buf' = Zero /\ next' = 1 /\ total' = 0 /\ hist' = <<>> /\ inner' = 0 /\ sumlen' = 0 /\ pc' = "inner"
Push(v) == /\ buf' = [buf EXCEPT ![next] = v]
           /\ next' = IF next = K THEN 1 ELSE next + 1
           /\ total' = IF total < K THEN total + 1 ELSE total
           /\ hist' = Append(hist, v)
Iterate == /\ pc = "inner" /\ inner < MaxInner
           /\ \E v \in Vals : Push(v)
           /\ inner' = inner + 1 /\ sumlen' = sumlen + 1
           /\ \/ pc' = "inner"
              \/ inner >= 1 /\ pc' = "outer"      \* relative change below the stage tolerance (never on the first pass)
           /\ UNCHANGED <<stage, muexp>>
Limit == pc = "inner" /\ inner = MaxInner /\ pc' = "outer" /\ UNCHANGED <<buf, next, total, hist, stage, inner, muexp, sumlen>>
Finish == pc = "outer" /\ stage = NC /\ pc' = "done" /\ UNCHANGED <<buf, next, total, hist, stage, inner, muexp, sumlen>>
Next == Begin \/ Iterate \/ Limit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
LastK == IF Len(hist) > K THEN SubSeq(hist, Len(hist) - K + 1, Len(hist)) ELSE hist
Window == /\ total = Len(LastK)
          /\ Sum([j \in 1 .. K |-> buf[j]]) = Sum(LastK)
Fresh == pc = "inner" => sumlen = inner /\ Len(hist) = inner
LastMu == pc = "done" => muexp = NC /\ stage = NC
Ends == <>(pc = "done")
==========================================================================
