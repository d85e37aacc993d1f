----------------------------- MODULE LbModel -----------------------------
(* Control skeleton of the l1qc solver and of its DCT driver: set-up, start
   test, barrier stages, Newton iterations with every possible outcome of the
   inner solve and the line search, resource bookkeeping.  The point is
   abstracted to its class: "start", "inside" (strictly feasible), and the
   driver's output to "untouched" / "result". *)
EXTENDS Integers, TLC
CONSTANTS LbIter, NMax
VARIABLES pc, feas, lb, it, count, point, status, owned, out, set
vars == <<pc, feas, lb, it, count, point, status, owned, out, set>>
Init == /\ pc = "setup" /\ feas \in BOOLEAN /\ lb = 0 /\ it = 0 /\ count = 0
        /\ point = "start" /\ status = "none" /\ owned = 0 /\ out = "untouched" /\ set = FALSE
Fail(s) == status' = s /\ pc' = "cleanup"
Setup == /\ pc = "setup"
         /\ \/ /\ set' = TRUE /\ pc' = "work" /\ UNCHANGED status
            \/ /\ set' = FALSE /\ status' = "dctinit" /\ pc' = "done"
         /\ UNCHANGED <<feas, lb, it, count, point, owned, out>>
Work == /\ pc = "work"                      \* work arrays: all or out-of-memory
        /\ \/ owned' = 2 /\ pc' = "test" /\ UNCHANGED status
           \/ \E k \in 0 .. 1 : owned' = k /\ Fail("oom")
        /\ UNCHANGED <<feas, lb, it, count, point, out, set>>
Test == /\ pc = "test"
        /\ IF feas THEN pc' = "stage" /\ UNCHANGED status ELSE Fail("infeasible")
        /\ UNCHANGED <<feas, lb, it, count, point, owned, out, set>>
StageStart == /\ pc = "stage"
              /\ IF lb < LbIter THEN lb' = lb + 1 /\ it' = 1 /\ pc' = "newton" /\ UNCHANGED status
                 ELSE pc' = "transform" /\ UNCHANGED <<lb, it, status>>
              /\ UNCHANGED <<feas, count, point, owned, out, set>>
StageEnd == count' = count + it /\ pc' = "stage"
NewtonIt == /\ pc = "newton"
            /\ IF it >= NMax THEN StageEnd /\ UNCHANGED <<it, point>>
               ELSE \/ point' = "inside" /\ it' = it + 1 /\ UNCHANGED <<pc, count>>      \* accepted step
                    \/ point' = "inside" /\ it' = it /\ StageEnd                           \* accepted, converged
                    \/ point' = point /\ it' = it /\ StageEnd                              \* line search failed or Newton system unsolved
            /\ UNCHANGED <<feas, lb, status, owned, out, set>>
Transform == /\ pc = "transform" /\ out' = "result" /\ status' = "ok" /\ pc' = "cleanup"
             /\ UNCHANGED <<feas, lb, it, count, point, owned, set>>
Cleanup == /\ pc = "cleanup" /\ owned' = 0 /\ set' = FALSE /\ pc' = "done"
           /\ UNCHANGED <<feas, lb, it, count, point, status, out>>
Next == Setup \/ Work \/ Test \/ StageStart \/ NewtonIt \/ Transform \/ Cleanup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Counts == pc = "done" /\ status = "ok" => count >= LbIter /\ count <= LbIter * NMax
Truthful == pc = "done" => /\ (status = "ok") <=> (out = "result")
                           /\ status = "ok" => feas
                           /\ ~feas => status \in {"infeasible", "oom", "dctinit"} /\ point = "start"
Released == pc = "done" => owned = 0 /\ ~set
Ends == <>(pc = "done")
==========================================================================
