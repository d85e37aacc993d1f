----------------------------- MODULE TraceLB -----------------------------
EXTENDS TraceBase, LogBarrier, Transforms
TraceInit == l = 1
Cl(name, got, want, sc, tol) == ChkV(name, got, want, RvClose(got, want, RvAdd("1e-290", RvMul(tol, sc)), tol))
P == [A |-> Ev.A, b |-> Ev.b, eps |-> Ev.eps, m |-> Ev.m, n |-> Ev.n]

FevalEv == /\ IsEvent("Feval")
           /\ ChkV("residual", Ev.r, Res(P, Ev.x), RvClose(Ev.r, Res(P, Ev.x), "1e-12", "1e-12"))
           /\ ChkV("fu1", Ev.fu1, RvNeg(Slack1(Ev.x, Ev.u)), RvClose(Ev.fu1, RvNeg(Slack1(Ev.x, Ev.u)), "1e-13", "1e-13"))
           /\ ChkV("fu2", Ev.fu2, RvNeg(Slack2(Ev.x, Ev.u)), RvClose(Ev.fu2, RvNeg(Slack2(Ev.x, Ev.u)), "1e-13", "1e-13"))
           /\ Chk("stored value is the returned one", RvSame(Ev.f, Ev.fstored))
           /\ IF Outside(P, Ev.x, Ev.u) THEN Chk("value outside the domain must be NaN", RvHasNaN(Ev.f))
              ELSE IF Inside(P, Ev.x, Ev.u)
                   THEN ChkV("barrier value", Ev.f, Barrier(P, Ev.x, Ev.u, Ev.tau),
                             RvClose(Ev.f, Barrier(P, Ev.x, Ev.u, Ev.tau), RvMul("1e-11", RvAdd("1", RvAdd(RvSum(RvAbs(Ev.u)), RvDiv(RvInt(40 * Ev.m + 40), Ev.tau)))), "1e-11"))
                   ELSE TRUE
           /\ Chk("arguments changed", Ev.same = 1)
GradEv == /\ IsEvent("Grad")
          /\ LET g == RvCat(GradX(P, Ev.x, Ev.u, Ev.tau), GradU(P, Ev.x, Ev.u, Ev.tau))
                 sc == RvAdd(RvDiv(RvAdd(RvNrmInf(RvDiv("1", Slack1(Ev.x, Ev.u))), RvNrmInf(RvDiv("1", Slack2(Ev.x, Ev.u)))), Ev.tau), "1") IN
             Cl("gradient", Ev.g, g, sc, "1e-9")
          /\ LET h == H11(P, Ev.x, Ev.u, Ev.z) IN Cl("reduced Hessian product", Ev.hz, h, RvNrmInf(h), "1e-8")
(* large problems: the element-wise parts only; du follows from dx by the second block row *)
ElimEv == /\ IsEvent("Elim")
          /\ LET x == Ev.x  u == Ev.u
                 s11 == D11(x, u)  s12 == D12(x, u)
                 gu == GradU(P, x, u, Ev.tau)
                 g == RvCat(GradX(P, x, u, Ev.tau), gu)
                 du == RvDiv(RvSub(RvNeg(RvMul(Ev.tau, gu)), RvMul(s12, Ev.dx)), s11)
                 sc == RvDiv(RvAdd(RvAbs(RvMul(Ev.tau, gu)), RvAbs(RvMul(s12, Ev.dx))), s11) IN
             /\ ChkV("gradient", Ev.g, g, RvClose(Ev.g, g, RvMul("1e-9", RvNrmInf(g)), "1e-9"))
             /\ ChkV("du does not belong to dx", Ev.du, du, RvLe(RvAbs(RvSub(Ev.du, du)), RvMul("1e-8", sc)))
DirEv == /\ IsEvent("Dir")
         /\ Chk("status: failure exactly when CG did not reduce the residual to a half", (Ev.st # 0) <=> RvLt("0.5", Ev.cgres))
         /\ IF Ev.exact = 0 THEN TRUE
            ELSE LET H == FullHess(P, Ev.x, Ev.u)
                     rhs == NegTauGrad(P, Ev.x, Ev.u, Ev.tau)
                     res == RvSub(RvMatVec(H, Ev.d), rhs)
                     sc == RvAdd(RvNrm2(rhs), RvMul("1e-6", RvNrm2(RvMul(RvNrmInf(H), Ev.d)))) IN
                 Chk("direction does not solve the Newton system", RvLe(RvNrm2(res), RvMul("1e-7", sc)))
StepEv == /\ IsEvent("MaxStep")
          /\ LET w == MaxStep(P, Ev.x, Ev.u, Ev.dx, Ev.du) IN
             ChkV("initial step", Ev.s, w, RvClose(Ev.s, w, "0", "1e-7"))
InitEv == /\ IsEvent("Init")
          /\ ChkV("u", Ev.u, StartU(Ev.x), RvClose(Ev.u, StartU(Ev.x), "0", "1e-13"))
          /\ ChkV("tau", Ev.tau, StartTau(Ev.m, Ev.x), RvClose(Ev.tau, StartTau(Ev.m, Ev.x), "0", "1e-12"))
          /\ Chk("x changed", Ev.same = 1)
          /\ IF Ev.lb0 # 0 THEN Chk("caller's lbiter not kept", Ev.lbiter = Ev.lb0)
             ELSE LET cnt == IF Ev.lbiter > 0 THEN Ev.lbiter ELSE 0
                      gap(j) == RvDiv(RvInt(2 * Ev.m + 1), RvMul(StartTau(Ev.m, Ev.x), RvPow(Ev.mu, RvInt(j)))) IN
                  /\ Chk("lbiter too small", RvLe(gap(cnt), RvMul(Ev.lbtol, "1.000001")))
                  /\ Chk("lbiter too large", cnt = 0 \/ RvLe(RvMul(Ev.lbtol, "0.999999"), gap(cnt - 1)))
FeasEv == /\ IsEvent("Feas")
          /\ LET d == RvSub(RvNrm2(Res(P, Ev.x)), Ev.eps)
                 tie == RvLe(RvAbs(d), RvMul("1e-12", RvAdd(Ev.eps, RvNrm2(Ev.b)))) IN
             Chk("feasibility verdict", tie \/ (IF RvLt("0", d) THEN Ev.st = Ev.infeas ELSE Ev.st = 0))
          /\ Chk("x changed", Ev.same = 1)
Jiggle(v) == RvMul(v, RvAdd("1", RvMul("1e-12", RvCosPi(RvIota(RvLen(v))))))
(* k Newton steps of j barrier stages; bad > 0: the line search of the bad-th one
   fails, which ends its stage at the point reached; tau grows all the same *)
PathEv == /\ IsEvent("Path")
          /\ Chk("status", Ev.st = 0)
          /\ LET o == [nmax |-> Ev.nmax, ntol |-> Ev.ntol, l1tol |-> Ev.l1tol, mu |-> Ev.mu, lbiter |-> Ev.lbiter, bad |-> Ev.bad]
                 w == Run(P, Ev.x0, o)
                 \* decisions must not hang on rounding
                 v == Run(P, Jiggle(Ev.x0), [o EXCEPT !.ntol = RvMul(o.ntol, "1.001"), !.l1tol = RvMul(o.l1tol, "1.001")])
                 z == Run(P, Jiggle(Ev.x0), [o EXCEPT !.ntol = RvDiv(o.ntol, "1.001"), !.l1tol = RvDiv(o.l1tol, "1.001")])
                 det == RvClose(w.x, v.x, "1e-30", "1e-8") /\ w.cnt = v.cnt /\ z.cnt = v.cnt IN
             det => /\ ChkV("point after the given number of Newton steps", Ev.x, w.x, RvClose(Ev.x, w.x, "1e-30", "1e-5"))
                    /\ Chk("number of Newton iterations", Ev.nit = w.cnt)
(* stages run until nothing changes any more: the result is the minimiser of the
   last stage's barrier *)
CentralEv == /\ IsEvent("Central")
             /\ Chk("status", Ev.st = 0)
             /\ LET o == [nmax |-> 80, ntol |-> "1e-9", l1tol |-> "0", mu |-> Ev.mu, lbiter |-> Ev.lbiter, bad |-> 0]
                    w == Run(P, Ev.x0, o)
                    z == Run(P, Ev.x0, [o EXCEPT !.nmax = 60, !.ntol = "1e-7"])
                    det == RvClose(w.x, z.x, RvMul("1e-6", RvNrmInf(w.x)), "1e-6") IN
                det => ChkV("minimiser of the last barrier", Ev.x, w.x, RvClose(Ev.x, w.x, RvMul("1e-4", RvNrmInf(w.x)), "1e-4"))
(* the same with truncated inner solves and the warm start *)
TruncEv == /\ IsEvent("Trunc")
           /\ Chk("status", Ev.st = 0)
           /\ LET o == [nmax |-> Ev.nmax, ntol |-> Ev.ntol, l1tol |-> Ev.l1tol, mu |-> Ev.mu, lbiter |-> Ev.lbiter, warm |-> Ev.warm, ctol |-> Ev.ctol, cmax |-> Ev.cmax]
                  w == RunC(P, Ev.x0, o)
                  v == RunC(P, Jiggle(Ev.x0), o)
                  \* the decision of CG to stop must not hang on rounding
                  f == IF RvLt(o.ctol, "1e-6") THEN "100" ELSE "1.001"
                  a == RunC(P, Ev.x0, [o EXCEPT !.ctol = RvMul(o.ctol, f)])
                  c == RunC(P, Ev.x0, [o EXCEPT !.ctol = RvDiv(o.ctol, f)])
                  det == w.ok /\ v.ok /\ RvClose(w.x, v.x, "1e-30", "1e-9") /\ w.cnt = v.cnt /\ w.its = v.its /\ w.unsolved = v.unsolved /\ w.its = a.its /\ w.its = c.its IN
              det => /\ ChkV("point after truncated inner solves", Ev.x, w.x, RvClose(Ev.x, w.x, "1e-30", "1e-6"))
                     /\ Chk("number of Newton iterations", Ev.nit = w.cnt)
                     /\ Chk("number of CG iterations", Ev.cgit = w.its)
(* whole solves *)
LbGap == RvDiv(RvInt(2 * Ev.m + 1), RvMul(StartTau(Ev.m, Ev.x0), RvPow(Ev.mu, RvInt(Ev.stages - 1))))
SolveOk(x, l1) ==
  /\ Chk("status", Ev.st = 0)
  /\ Chk("measurements changed", Ev.bsame = 1)
  /\ Chk("wrote outside its vectors", Ev.guard = 1)
  /\ Chk("returned point is infeasible", RvLe(RvNrm2(Res(P, x)), RvAdd(RvMul(Ev.eps, "1.000000001"), RvMul("1e-11", RvNrm2(P.b)))))
  /\ ChkV("reported l1 norm", Ev.l1, RvNrm1(x), RvClose(Ev.l1, RvNrm1(x), "1e-12", "1e-9"))
  /\ Chk("Newton count", Ev.nit <= Ev.stages * Ev.nmax /\ Ev.nit >= Ev.stages)
  /\ IF Ev.y = "" THEN TRUE
     ELSE /\ Chk("witness (driver)", DualFeasible(P, Ev.y))
          /\ LET gap == RvSub(RvNrm1(x), DualValue(P, Ev.y)) IN
             ChkV("l1 norm too far above the optimum", gap, LbGap,
                  RvLe(gap, RvAdd(RvMul("1.05", LbGap), RvAdd(RvMul("3", Ev.ntol), RvMul("1e-6", RvNrm1(x))))))
SolveEv == /\ IsEvent("Solve")
           /\ IF Ev.feasible = 1 THEN SolveOk(Ev.x, Ev.l1)
              ELSE /\ Chk("infeasible start must be reported", Ev.st = Ev.infeas)
                   /\ Chk("infeasible start: point changed", RvSame(Ev.x, Ev.x0))
                   /\ Chk("measurements changed", Ev.bsame = 1)
(* l1qc_dct: b and idx given in the signal domain; A = R*M *)
Sx == [fam |-> IF Ev.dim = 1 THEN "dct1" ELSE "dct2", n |-> Ev.n, r |-> Ev.r, c |-> Ev.c, idx |-> Ev.idx, av |-> "0", ah |-> "0", dim |-> Ev.dim, A |-> ""]
DctEv == /\ IsEvent("DctSolve")
         /\ Chk("sample indices changed", Ev.isame = 1)
         /\ IF Ev.valid = 0
            THEN /\ Chk("failure must be reported", Ev.st # 0)
                 /\ Chk("measurements changed", Ev.bsame = 1)
                 /\ Chk("output written by a failed call", Ev.xsame = 1)
            ELSE LET eta == Dct(Sx, Ev.x) IN
                 /\ Chk("status in the result", Ev.lbst = 0)
                 /\ ChkV("sampled output does not fit the measurements", Samp(Sx, Ev.x), Ev.b,
                         RvLe(RvNrm2(RvSub(Samp(Sx, Ev.x), Ev.b)), RvAdd(RvMul(Ev.eps, "1.00000001"), RvMul("1e-11", RvNrm2(Ev.b)))))
                 /\ SolveOk(eta, Ev.l1)
TraceNext == IsEvent("Case") \/ FevalEv \/ GradEv \/ ElimEv \/ DirEv \/ StepEv \/ InitEv \/ FeasEv \/ PathEv \/ CentralEv \/ TruncEv \/ SolveEv \/ DctEv
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
