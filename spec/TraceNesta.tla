---------------------------- MODULE TraceNesta ----------------------------
EXTENDS TraceBase, Nesta
VARIABLE win        \* values pushed into the window so far
tvars == <<l, win>>
TraceInit == l = 1 /\ win = <<>>
P == IF Ev.k = "dense"
     THEN [k |-> "dense", A |-> Ev.A, W |-> Ev.W, s |-> <<>>, n |-> Ev.n, m |-> Ev.m, p |-> Ev.p, b |-> Ev.b, sigma |-> Ev.sigma, L |-> RvMul(Ev.norm, Ev.norm)]
     ELSE [k |-> "set", A |-> "", W |-> "", s |-> Record(Ev), n |-> Ev.n, m |-> Ev.m, p |-> Ev.p, b |-> Ev.b, sigma |-> Ev.sigma, L |-> RvMul(Ev.norm, Ev.norm)]
Cl(name, got, want, sc, tol) == ChkV(name, got, want, RvClose(got, want, RvMul(tol, RvAdd("1e-290", sc)), tol))
Perturb(p) == [p EXCEPT !.b = RvMul(p.b, RvAdd("1", RvMul("1e-12", RvCosPi(RvIota(RvLen(p.b))))))]

RunEv == /\ IsEvent("Nesta") /\ win' = win
         /\ Chk("measurements changed", Ev.bsame = 1)
         /\ Chk("wrote outside its vectors", Ev.guard = 1)
         /\ IF Ev.valid = 0
            THEN /\ Chk("bad arguments must be reported", Ev.st # 0)
                 /\ Chk("output written by a refused call", Ev.xsame = 1)
            ELSE /\ Chk("status", Ev.st = 0)
                 /\ LET o == [mu |-> Ev.mu, tol |-> Ev.tol, ncont |-> Ev.ncont, cap |-> Ev.cap]
                        w == NestaRun(P, o)
                        v == NestaRun(Perturb(P), o)
                        det == ~w.tie /\ ~v.tie /\ ~w.cut /\ ~v.cut /\ w.its = v.its /\ RvClose(w.x, v.x, "1e-30", "1e-8") IN
                    det => ChkV("iterate", Ev.x, w.x, RvClose(Ev.x, w.x, "1e-30", "1e-6"))
                 /\ Chk("returned point is infeasible",
                        RvLe(RvNrm2(RvSub(PAx(P, Ev.x), P.b)), RvAdd(RvMul(P.sigma, "1.0000001"), RvMul("1e-11", RvNrm2(P.b)))))
                 /\ IF Ev.y = "" THEN TRUE
                    ELSE /\ Chk("witness (driver)", RvLe(RvNrmInf(PAty(P, Ev.y)), "1.000000001"))
                         /\ LET dual == RvSub(RvDot(P.b, Ev.y), RvMul(P.sigma, RvNrm2(Ev.y)))
                                gap == RvSub(RvNrm1(Ev.x), dual) IN
                            ChkV("l1 norm too far above the optimum", gap, dual,
                                 RvLe(gap, RvAdd(RvMul(Ev.mu, RvInt(Ev.p)), RvMul("0.02", RvAbs(dual)))))
ProjEv == /\ IsEvent("Project") /\ win' = win
          /\ Chk("arguments changed", Ev.same = 1) /\ Chk("wrote outside its vectors", Ev.guard = 1)
          /\ LET w == Project(P, Ev.mu, Ev.xx, Ev.g) IN
             Cl("projection", Ev.v, w, RvAdd(RvNrmInf(Ev.xx), RvAdd(RvNrmInf(P.b), RvNrmInf(RvMul(RvDiv(Ev.mu, P.L), Ev.g)))), "1e-9")
FevEv == /\ IsEvent("Feval") /\ win' = win
         /\ Chk("point changed", Ev.same = 1)
         /\ LET v == Value(P, Ev.mu, Ev.x) IN Cl("smoothed value", Ev.f, v, RvNrm1(PWtx(P, Ev.x)), "1e-11")
         /\ LET g == Grad(P, Ev.mu, Ev.x) IN Cl("gradient of the smoothed value", Ev.g, g, RvAdd("1", RvSqrt(P.L)), "1e-10")
SetEv == /\ IsEvent("NSetup") /\ win' = win
         /\ Chk("measurements changed", Ev.bsame = 1)
         /\ IF Ev.missing = 1 THEN Chk("missing operator not refused", Ev.st # 0)
            ELSE /\ Chk("status", Ev.st = 0)
                 /\ LET x0 == PAty(P, P.b)
                        m0 == Mu0(P) IN
                    /\ Cl("x0", Ev.xo, x0, RvNrm2(P.b), "1e-12")
                    /\ Cl("A'b", Ev.Atb, x0, RvNrm2(P.b), "1e-12")
                    /\ Cl("initial mu", Ev.muj, m0, "0", "1e-9")
                    /\ Cl("initial tolerance", Ev.tolj, "0.1", "0", "1e-12")
                    /\ Cl("mu factor reaches the final mu", RvMul(Ev.muj, RvPow(Ev.bm, RvInt(Ev.ncont))), Ev.mu, "0", "1e-9")
                    /\ Cl("tolerance factor reaches the final tolerance", RvMul(Ev.tolj, RvPow(Ev.bt, RvInt(Ev.ncont))), Ev.tol, "0", "1e-9")
                    /\ Cl("L", Ev.L, P.L, "0", "1e-12")
                    /\ Chk("sigma", RvSame(Ev.gsigma, P.sigma))
PushEv == /\ IsEvent("Push") /\ win' = Append(win, Ev.v)
          /\ Cl("mean of the last values", Ev.mean, Mean10(win'), RvMaxOf(RvAbs(Ev.scale)), "1e-12")
NewWin == IsEvent("Window") /\ win' = <<>>
TraceNext == (IsEvent("Case") /\ win' = win) \/ RunEv \/ ProjEv \/ FevEv \/ SetEv \/ PushEv \/ NewWin
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
