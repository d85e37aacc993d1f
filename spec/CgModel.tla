----------------------------- MODULE CgModel -----------------------------
(* Control skeleton of the CG solvers: the residual of each visited point is an
   arbitrary value (or NaN, written NaN = 99, after a breakdown); the loop keeps
   the best point, stops below Tol or at MaxIter.  Every residual sequence is
   explored. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxIter, Vals, Tol
NaN == 99
Lt(a, b) == a # NaN /\ b # NaN /\ a < b
VARIABLES pc, iter, res, best, bestk, cgiter
vars == <<pc, iter, res, best, bestk, cgiter>>
Init == /\ pc = "loop" /\ iter = 1 /\ cgiter = -1 /\ bestk = 0
        /\ \E v \in Vals : res = <<v>> /\ best = v
Step == /\ pc = "loop" /\ iter <= MaxIter
        /\ \E v \in Vals \cup {NaN} :
             /\ (res[Len(res)] = NaN) => v = NaN
             /\ res' = Append(res, v)
             /\ IF Lt(v, best) THEN best' = v /\ bestk' = iter ELSE UNCHANGED <<best, bestk>>
             /\ IF Lt(v, Tol) THEN pc' = "done" /\ iter' = iter /\ cgiter' = iter
                              ELSE pc' = pc /\ iter' = iter + 1 /\ cgiter' = cgiter
Stop == /\ pc = "loop" /\ iter > MaxIter
        /\ pc' = "done" /\ cgiter' = (IF iter < MaxIter THEN iter ELSE MaxIter)
        /\ UNCHANGED <<iter, res, best, bestk>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Best == pc = "done" => /\ best = res[bestk + 1]
                       /\ \A k \in 1 .. Len(res) : res[k] = NaN \/ best <= res[k]
Count == pc = "done" => cgiter = Len(res) - 1
StopRule == pc = "done" => /\ \A k \in 2 .. Len(res) - 1 : ~Lt(res[k], Tol)
                           /\ cgiter < MaxIter => Lt(res[Len(res)], Tol)
Ends == <>(pc = "done")
===========================================================================
