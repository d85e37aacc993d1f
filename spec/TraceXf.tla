----------------------------- MODULE TraceXf -----------------------------
(* Histories of set-up, operator calls and destroy, recorded from the real
   library.  live[slot] is the set-up record of the live transform set of that
   slot ("D": DCT based, "M": matrix), or <<>>. *)
EXTENDS TraceBase, Transforms

VARIABLES live
tvars == <<l, live>>
OK == 0
INVAL == 2048          \* L1C_INVALID_ARGUMENT as documented, 1 << 11

TraceInit == l = 1 /\ live = [D |-> <<>>, M |-> <<>>]
CaseEv == IsEvent("Case") /\ live' = [D |-> <<>>, M |-> <<>>]

SizesOk(s) == /\ Chk("n", Ev.dn = DimN(s)) /\ Chk("q", Ev.dq = DimQ(s))
              /\ Chk("m", Ev.dm = DimM(s)) /\ Chk("p", Ev.dp = DimP(s))
WMatrixNormBound(s) == RvSqrt(RvAdd("1", RvAdd(RvMul("4", RvMul(s.av, s.av)), RvMul("4", RvMul(s.ah, s.ah)))))
NormOk(s) == CASE s.fam \in {"dct1", "dct2", "tvs"} -> RvCloseEl(Ev.norm, "1", "0", "1e-14")
               [] s.fam = "tva" -> RvLe(RvMul(WMatrixNormBound(s), "0.999999999999"), Ev.norm)
               [] OTHER -> TRUE
SetupOk == /\ IsEvent("Setup") /\ Valid(Ev) /\ Ev.st = OK
           /\ LET s == Record(Ev) IN
              /\ SizesOk(s)
              /\ Chk("norm_W", NormOk(s))
              /\ Chk("all operators present", Ev.has = 511)
              /\ Chk("sample indices or matrix changed", Ev.argsame = 1)
              /\ live' = [live EXCEPT ![Slot(Ev)] = s]
SetupRefused == /\ IsEvent("Setup") /\ ~Valid(Ev)
                /\ Chk("invalid arguments must be refused", Ev.st = INVAL)
                /\ Chk("caller's structure written by a refused set-up", Ev.untouched = 1)
                /\ Chk("sample indices or matrix changed", Ev.argsame = 1)
                /\ Chk("a refused set-up keeps resources", Ev.acq = 0)
                /\ live' = live
SetupBad == /\ l <= Len(Trace) /\ Ev.e = "Setup" /\ Valid(Ev) /\ Ev.st # OK
            /\ PrintT(<<"REJECT", l, "valid arguments refused", Ev.st>>) /\ FALSE /\ UNCHANGED tvars

OpEv == /\ IsEvent("Op")
        /\ live' = live
        /\ live[Ev.slot] # <<>>
        /\ LET s == live[Ev.slot]
               want == Apply(s, Ev.op, Ev.x) IN
           /\ Chk("input length (driver)", RvLen(Ev.x) = InLen(s, Ev.op))
           /\ Chk("input changed", Ev.xsame = 1)
           /\ Chk("wrote outside the output", Ev.guard = 1)
           /\ ChkV("value of " \o Ev.op, RvSlice(Ev.y, 1, OutLen(s, Ev.op)), want,
                   RvClose(RvSlice(Ev.y, 1, OutLen(s, Ev.op)), want, RvMul("5e-13", OpScale(s, Ev.op, Ev.x)), "0"))
DestroyEv == /\ IsEvent("Destroy")
             /\ live[Ev.slot] # <<>>
             /\ Chk("resources of the set-up not released exactly once", Ev.left = 0 /\ Ev.dbl = 0)
             /\ live' = [live EXCEPT ![Ev.slot] = <<>>]
(* <A x, y> = <x, A' y> on recorded outputs *)
AdjEv == /\ IsEvent("Adj") /\ live' = live
         /\ LET a == RvDot(Ev.ax, Ev.y)
                b == RvDot(Ev.x, Ev.aty) IN
            ChkV("adjoint", a, b, RvClose(a, b, RvMul("1e-11", RvAdd("1e-300", RvMul(RvAdd(RvNrm2(Ev.ax), RvNrm2(Ev.x)), RvAdd(RvNrm2(Ev.y), RvNrm2(Ev.aty))))), "0"))
TraceNext == CaseEv \/ SetupOk \/ SetupRefused \/ SetupBad \/ OpEv \/ DestroyEv \/ AdjEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===========================================================================
