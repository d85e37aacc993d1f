----------------------------- MODULE TraceCG -----------------------------
(* One event per solver call.  TLC runs the CG state machine from the recorded
   start and compares what the implementation returned. *)
EXTENDS TraceBase, CG
TraceInit == l = 1
Floor == "1e-7"     \* relative residuals below this are dominated by rounding and not compared
\* a copy of v with every element moved by a relative 1e-12 (alternating signs)
Jiggle(v) == RvMul(v, RvAdd("1", RvMul("1e-12", RvCosPi(RvIota(RvLen(v))))))
Min2(a, b) == IF a < b THEN a ELSE b
Eff(a) == IF a.minv = "" THEN RvConst(a.N, "1") ELSE a.minv

CgEv == /\ IsEvent("Cg")
        /\ Chk("right-hand side, matrix or preconditioner changed", Ev.bsame = 1)
        /\ Chk("wrote outside its vectors", Ev.guard = 1)
        /\ Chk("status", Ev.st = 0)
        /\ Chk("iteration count above max_iter", Ev.iter >= 0 /\ Ev.iter <= Ev.maxit)
        /\ LET A == Ev.A
               n == Min2(Ev.iter, Ev.N + 24)
               run == CgRun(A, Eff(Ev), CgStart(A, Ev.b, Eff(Ev), Ev.x0), n)
               \* the same run from data perturbed far above rounding: where the
               \* two runs part, the recurrences amplify rounding and the
               \* iterates are no longer determined by the data
               per == CgRun(A, Eff(Ev), CgStart(A, Jiggle(Ev.b), Eff(Ev), Jiggle(Ev.x0)), n)
               rel == [k \in 1 .. Len(run) |-> RelRes(A, Ev.b, run[k].x)]
               relp == [k \in 1 .. Len(run) |-> RelRes(A, Ev.b, per[k].x)]
               true == RelRes(A, Ev.b, Ev.x)
               lost == {k \in 1 .. Len(run) : \/ ~RvFinite(rel[k]) \/ ~RvFinite(relp[k])
                                             \/ RvLt(rel[k], Floor)
                                             \/ ~RvClose(run[k].x, per[k].x, "1e-30", "1e-8")
                                             \/ ~RvClose(rel[k], relp[k], "0", "1e-5")}
               last == IF lost = {} THEN Len(run) ELSE (CHOOSE k \in lost : \A j \in lost : k <= j) - 1
               good == 1 .. last
               all == last >= Ev.iter + 1        \* every visited point is determined
           IN
           /\ ChkV("reported residual is not that of the returned point", Ev.res, true,
                   RvClose(Ev.res, true, "1e-10", "1e-6"))
           \* no visited point is better than the returned one
           /\ Chk("a visited point has a smaller residual", \A k \in good : RvLe(Ev.res, RvAdd("1e-9", RvMul(rel[k], "1.0001"))))
           \* the returned point is a visited one (or lies in the undetermined tail)
           /\ Chk("returned point was not visited",
                  \/ ~all
                  \/ \E k \in good : RvClose(Ev.x, run[k].x, "1e-30", "1e-6"))
           \* stopping rule
           /\ Chk("did not stop although the residual was below tol",
                  \A k \in good : (k > 1 /\ k - 1 < Ev.iter) => RvLe(RvMul(Ev.tol, "0.9999"), rel[k]))
           /\ Chk("stopped although the residual was not below tol",
                  \/ Ev.iter = Ev.maxit
                  \/ IF all THEN Ev.iter >= 1 /\ RvLe(rel[Ev.iter + 1], RvMul(Ev.tol, "1.0001"))
                            ELSE RvLe(Ev.res, RvAdd("1e-9", RvMul(Ev.tol, "1.0001"))))
           \* with enough iterations the system is solved
           /\ Chk("did not solve a small well-conditioned system",
                  Ev.maxit >= 3 * Ev.N /\ Ev.wellcond = 1 => RvLe(true, RvMax(RvMul(Ev.tol, "1.0001"), "1e-9")))
           \* the start is never lost: with no iterations it is returned as is
           /\ Chk("zero iterations must return the start", Ev.iter = 0 => RvSame(Ev.x, Ev.x0))
TraceNext == IsEvent("Case") \/ CgEv
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
