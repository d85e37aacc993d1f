----------------------------- MODULE TraceTV -----------------------------
(* Calls of the TV operators recorded from the real library. *)
EXTENDS TraceBase, TVOps

TraceInit == l = 1
CaseEv == IsEvent("Case")
TvEv == /\ IsEvent("Tv")
        /\ Chk("input changed", Ev.xsame = 1)
        /\ Chk("wrote outside the output", Ev.guard = 1)
        /\ LET want == TvOp(Ev.op, Ev.n, Ev.m, Ev.al, Ev.x) IN
           ChkV("value", Ev.y, want, RvClose(Ev.y, want, RvMul("1e-13", TvScale(Ev.op, Ev.al, Ev.x)), "0"))
(* <D x, y> = <x, D' y> on the recorded outputs themselves *)
AdjEv == /\ IsEvent("Adj")
         /\ LET a == RvDot(Ev.dx, Ev.y)
                b == RvDot(Ev.x, Ev.dty) IN
            ChkV("adjoint", a, b, RvClose(a, b, RvMul("1e-12", RvMul(RvNrm2(Ev.x), RvMul(RvNrm2(Ev.y), RvMax(RvAbs(Ev.al), "1e-300")))), "0"))
TraceNext == CaseEv \/ TvEv \/ AdjEv
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
