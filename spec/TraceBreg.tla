----------------------------- MODULE TraceBreg -----------------------------
EXTENDS TraceBase, Bregman
TraceInit == l = 1
Cl(name, got, want, sc, tol) == ChkV(name, got, want, RvClose(got, want, RvMul(tol, RvAdd("1e-290", sc)), tol))
Jiggle(v) == RvMul(v, RvAdd("1", RvMul("1e-12", RvCosPi(RvIota(RvLen(v))))))
Frame == /\ Chk("read-only argument changed", Ev.same = 1) /\ Chk("wrote outside its vectors", Ev.guard = 1)

RunEv == /\ IsEvent("Breg") /\ Frame
         /\ Chk("status", Ev.st = 0)
         /\ IF Ev.model = 0 THEN TRUE
            ELSE LET lap == Lap(Ev.n, Ev.m)
                     w == BregRun(Ev.n, Ev.m, lap, Ev.f, Ev.mu, Ev.tol, Ev.maxit, Ev.jac)
                     v == BregRun(Ev.n, Ev.m, lap, Jiggle(Ev.f), Ev.mu, Ev.tol, Ev.maxit, Ev.jac)
                     det == ~w.tie /\ ~v.tie /\ w.it = v.it /\ RvClose(w.u, v.u, "1e-290", "1e-9") IN
                 det => ChkV("iterate", Ev.u, w.u, RvClose(Ev.u, w.u, "1e-290", "1e-8"))
         /\ IF Ev.px = "" THEN TRUE
            ELSE /\ Chk("witness (driver)", RvLe(RvNrmInf(Ev.px), "1") /\ RvLe(RvNrmInf(Ev.py), "1"))
                 /\ LET pr == TvObjective(Ev.n, Ev.m, Ev.f, Ev.mu, Ev.u)
                        du == TvDual(Ev.n, Ev.m, Ev.f, Ev.mu, Ev.px, Ev.py) IN
                    ChkV("converged result is not a minimiser", pr, du,
                         RvLe(RvSub(pr, du), RvMul("1e-4", RvAdd(RvAbs(pr), "1e-290"))))
ShrinkEv == IsEvent("Shrink") /\ Frame /\ LET w == Shrink(Ev.x, Ev.g) IN Cl("soft threshold", Ev.z, w, RvNrmInf(Ev.x), "1e-14")
MxpyEv == IsEvent("Mxpy") /\ Frame /\ LET w == RvSub(Ev.y, Ev.x) IN Cl("difference", Ev.z, w, "0", "1e-14")
RhsEv == IsEvent("Rhs") /\ Frame /\ LET w == Rhs(Ev.n, Ev.m, Ev.f, Ev.dx, Ev.bx, Ev.dy, Ev.by, Ev.mu, Ev.la) IN
         Cl("right-hand side", Ev.z, w, RvAdd(RvNrmInf(RvMul(Ev.mu, Ev.f)), RvMul(Ev.la, Ev.scale)), "1e-13")
GsEv == IsEvent("Gs") /\ Frame /\
        LET w == Sweep(Hess(Lap(Ev.n, Ev.m), Ev.n * Ev.m, Ev.mu, Ev.la), LowMask(Ev.n * Ev.m), Ev.u, Ev.rhs) IN
        Cl("Gauss-Seidel sweep", Ev.z, w, RvAdd(RvNrmInf(Ev.u), RvDiv(RvNrmInf(Ev.rhs), RvAdd(Ev.mu, Ev.la))), "1e-12")
HidEv == IsEvent("Hid") /\ Frame /\
        LET w == RvDiv("1", RvAdd(Ev.mu, RvMul(Ev.la, Degree(Ev.n, Ev.m)))) IN Cl("inverse diagonal", Ev.z, w, "0", "1e-13")
JacEv == IsEvent("Jac") /\ Frame /\
        LET w == JacobiStep(Hess(Lap(Ev.n, Ev.m), Ev.n * Ev.m, Ev.mu, Ev.la), Ev.d, Ev.u, Ev.rhs) IN
        Cl("Jacobi sweep", Ev.z, w, RvAdd(RvNrmInf(Ev.u), RvDiv(RvNrmInf(Ev.rhs), RvAdd(Ev.mu, Ev.la))), "1e-11")
TraceNext == IsEvent("Case") \/ RunEv \/ ShrinkEv \/ MxpyEv \/ RhsEv \/ GsEv \/ HidEv \/ JacEv
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
