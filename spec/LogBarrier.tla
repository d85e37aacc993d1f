---------------------------- MODULE LogBarrier ----------------------------
(* The log-barrier problem  min sum(u)  s.t. |x| <= u, ||Ax-b|| <= eps  and the
   Newton path the l1qc solver follows.  p = [A, b, eps, m, n] with A row-major.
   Everything is written from the definition of the barrier
     f = sum(u) - (1/tau) (sum log(u-x) + sum log(u+x) + log((eps^2-||Ax-b||^2)/2))
   with the full 2m x 2m Hessian; the implementation eliminates u and uses CG. *)
EXTENDS RealVec, Integers, Sequences

Res(p, x) == RvSub(RvMatVec(p.A, x), p.b)
Slack1(x, u) == RvSub(u, x)
Slack2(x, u) == RvAdd(u, x)
Half(p, x) == LET r == Res(p, x) IN RvMul("0.5", RvSub(RvMul(p.eps, p.eps), RvDot(r, r)))
Barrier(p, x, u, tau) ==
  RvSub(RvSum(u), RvDiv(RvAdd(RvAdd(RvSum(RvLog(Slack1(x, u))), RvSum(RvLog(Slack2(x, u)))), RvLog(Half(p, x))), tau))
Inside(p, x, u) == RvLt("0", Slack1(x, u)) /\ RvLt("0", Slack2(x, u)) /\ RvLt("0", Half(p, x))
Outside(p, x, u) == RvLt(RvMinOf(Slack1(x, u)), "0") \/ RvLt(RvMinOf(Slack2(x, u)), "0") \/ RvLt(Half(p, x), "0")

Atr(p, x) == RvMatTVec(p.A, Res(p, x))
GradX(p, x, u, tau) == RvDiv(RvAdd(RvSub(RvDiv("1", Slack1(x, u)), RvDiv("1", Slack2(x, u))), RvDiv(Atr(p, x), Half(p, x))), tau)
GradU(p, x, u, tau) == RvSub("1", RvDiv(RvAdd(RvDiv("1", Slack1(x, u)), RvDiv("1", Slack2(x, u))), tau))

Sq(v) == RvMul(v, v)
D11(x, u) == RvAdd(Sq(RvDiv("1", Slack1(x, u))), Sq(RvDiv("1", Slack2(x, u))))
D12(x, u) == RvSub(Sq(RvDiv("1", Slack2(x, u))), Sq(RvDiv("1", Slack1(x, u))))
(* tau times the x-x block of the Hessian without its diagonal part *)
Cone(p, x) == LET h == Half(p, x) IN
              RvAdd(RvDiv(RvMatMul(RvTrans(p.A, p.n), p.A, p.n), h), RvDiv(RvOuter(Atr(p, x), Atr(p, x)), Sq(h)))
HCat(A, ra, B) == RvTrans(RvCat(RvTrans(A, ra), RvTrans(B, ra)), RvToInt(RvDiv(RvInt(RvLen(A) + RvLen(B)), RvInt(ra))))
FullHess(p, x, u) ==
  LET top == HCat(RvAdd(RvDiag(D11(x, u)), Cone(p, x)), p.m, RvDiag(D12(x, u)))
      bot == HCat(RvDiag(D12(x, u)), p.m, RvDiag(D11(x, u)))
  IN RvCat(top, bot)
(* the Schur complement of the u block: what CG is applied to *)
H11(p, x, u, z) ==
  LET s11 == D11(x, u)  s12 == D12(x, u) IN
  RvAdd(RvMul(RvSub(s11, RvDiv(Sq(s12), s11)), z), RvMatVec(Cone(p, x), z))
NegTauGrad(p, x, u, tau) == RvMul(RvNeg(tau), RvCat(GradX(p, x, u, tau), GradU(p, x, u, tau)))
Newton(p, x, u, tau) == RvSolve(FullHess(p, x, u), NegTauGrad(p, x, u, tau))

(* largest step that keeps every constraint satisfied *)
Ratio(s, d) == RvMinOf(RvSel(RvPos(d), RvDiv(s, d), "inf"))
ConeStep(p, x, dx) ==
  LET r == Res(p, x)
      a == RvDot(RvMatVec(p.A, dx), RvMatVec(p.A, dx))
      b == RvMul("2", RvDot(r, RvMatVec(p.A, dx)))
      c == RvMul("-2", Half(p, x))
      s == RvSqrt(RvSub(Sq(b), RvMul("4", RvMul(a, c)))) IN
  IF RvEq(a, "0") THEN "inf"
  ELSE IF RvLt("0", b) THEN RvDiv(RvMul("-2", c), RvAdd(b, s))
       ELSE RvDiv(RvSub(s, b), RvMul("2", a))
MaxStep(p, x, u, dx, du) ==
  RvMul("0.99", RvMin("1", RvMin(ConeStep(p, x, dx),
                       RvMin(Ratio(Slack1(x, u), RvSub(dx, du)), Ratio(Slack2(x, u), RvSub(RvNeg(dx), du))))))

(* start values *)
StartU(x) == RvAdd(RvMul("0.95", RvAbs(x)), RvMul("0.1", RvNrmInf(x)))
StartTau(m, x) == RvMax(RvDiv(RvInt(2 * m + 1), RvNrm1(x)), "1")

RECURSIVE Search(_, _, _, _, _, _, _, _, _)
(* backtracking with alpha = 0.01, beta = 0.5, 32 trials; <<>> on failure *)
Search(p, x, u, dx, du, tau, f0, slope, t) ==
  IF t[1] > 32 THEN <<>>
  ELSE LET xp == RvAdd(x, RvMul(t[2], dx))
           up == RvAdd(u, RvMul(t[2], du))
           f == Barrier(p, xp, up, tau) IN
       IF ~RvHasNaN(f) /\ RvLe(f, RvAdd(f0, RvMul("0.01", RvMul(t[2], slope))))
       THEN <<xp, up>>
       ELSE Search(p, x, u, dx, du, tau, f0, slope, <<t[1] + 1, RvMul("0.5", t[2])>>)

RECURSIVE Stage(_, _, _, _, _, _)
(* Newton iterations of one barrier stage from iteration k on; o = options
   (o.bad: at the bad-th Newton iteration of the run no trial point can be
   evaluated, so its line search fails; 0: never); the result is the state after
   the stage [x, u, cnt, bad], bad counting down *)
Stage(p, x, u, tau, o, kl) ==
  LET k == kl[1]  l1prev == kl[2]
      end(xx, uu, bb) == [x |-> xx, u |-> uu, cnt |-> k, bad |-> bb] IN
  IF k >= o.nmax THEN end(x, u, o.bad)
  ELSE LET dd == Newton(p, x, u, tau)
           dx == RvSlice(dd, 1, p.m)
           du == RvSlice(dd, p.m + 1, p.m)
           slope == RvAdd(RvDot(GradX(p, x, u, tau), dx), RvDot(GradU(p, x, u, tau), du))
           nb == IF o.bad > 0 THEN o.bad - 1 ELSE 0
           s == IF o.bad = 1 THEN <<>>
                ELSE Search(p, x, u, dx, du, tau, Barrier(p, x, u, tau), slope, <<1, MaxStep(p, x, u, dx, du)>>) IN
       IF s = <<>> THEN end(x, u, nb)
       ELSE IF RvLt(RvMul("-0.5", slope), o.ntol) THEN end(s[1], s[2], nb)
       ELSE LET l1 == RvNrm1(s[1])
                rate == RvDiv(RvAbs(RvSub(l1prev, l1)), l1) IN
            IF RvLt(rate, o.l1tol) THEN end(s[1], s[2], nb)
            ELSE Stage(p, s[1], s[2], tau, [o EXCEPT !.bad = nb], <<k + 1, l1>>)
RECURSIVE Stages(_, _, _, _, _)
Stages(p, st, tau, o, j) ==
  IF j > o.lbiter THEN st
  ELSE LET q == Stage(p, st.x, st.u, tau, o, <<1, "inf">>) IN
       Stages(p, [x |-> q.x, u |-> q.u, cnt |-> st.cnt + q.cnt], RvMul(tau, o.mu), [o EXCEPT !.bad = q.bad], j + 1)
Run(p, x0, o) == Stages(p, [x |-> x0, u |-> StartU(x0), cnt |-> 0], StartTau(p.m, x0), o, 1)

(* The same path with the inner solves the solver really makes: CG on the Schur
   complement, started as warm says (0: from zero, 1: from the previous
   direction, 2: from the previous direction times its accepted step; every
   stage starts from zero), stopped at relative residual ctol or after cmax
   iterations, best point kept. *)
SchurMat(p, x, u) == LET s11 == D11(x, u)  s12 == D12(x, u) IN RvAdd(RvDiag(RvSub(s11, RvDiv(Sq(s12), s11))), Cone(p, x))
RECURSIVE CgBest(_, _, _, _, _)
(* s = [k, x, r, p, delta, best, res, d0]; stop once res of the last step < tol *)
CgBest(H, tol, max, s, last) ==
  IF s.k >= max \/ (s.k > 0 /\ RvLt(last, tol)) THEN s
  ELSE LET q == RvMatVec(H, s.p)
           al == RvDiv(s.delta, RvDot(s.p, q))
           x == RvAdd(s.x, RvMul(al, s.p))
           r == RvSub(s.r, RvMul(al, q))
           dn == RvDot(r, r)
           rel == RvSqrt(RvDiv(dn, s.d0))
           new == RvLt(rel, s.res) IN
       CgBest(H, tol, max, [k |-> s.k + 1, x |-> x, r |-> r, p |-> RvAdd(r, RvMul(RvDiv(dn, s.delta), s.p)), delta |-> dn,
                            best |-> IF new THEN x ELSE s.best, res |-> IF new THEN rel ELSE s.res, d0 |-> s.d0], rel)
Inexact(p, x, u, tau, o, dx0) ==
  LET rhs == NegTauGrad(p, x, u, tau)
      r1 == RvSlice(rhs, 1, p.m)
      r2 == RvSlice(rhs, p.m + 1, p.m)
      H == SchurMat(p, x, u)
      w == RvSub(r1, RvMul(RvDiv(D12(x, u), D11(x, u)), r2))
      r == RvSub(w, RvMatVec(H, dx0))
      d0 == RvDot(w, w)
      c == CgBest(H, o.ctol, o.cmax, [k |-> 0, x |-> dx0, r |-> r, p |-> r, delta |-> RvDot(r, r), best |-> dx0,
                                      res |-> RvSqrt(RvDiv(RvDot(r, r), d0)), d0 |-> d0], "inf") IN
  [dx |-> c.best, du |-> RvDiv(RvSub(r2, RvMul(D12(x, u), c.best)), D11(x, u)), its |-> c.k,
   \* solved: to half of the right-hand side; "tie": within rounding of that
   ok |-> IF RvLe(c.res, "0.4999999") THEN "yes" ELSE IF RvLe("0.5000001", c.res) THEN "no" ELSE "tie"]
RECURSIVE SearchS(_, _, _, _, _, _, _, _, _)
SearchS(p, x, u, dx, du, tau, f0, slope, t) ==
  IF t[1] > 32 THEN <<>>
  ELSE LET xp == RvAdd(x, RvMul(t[2], dx))
           up == RvAdd(u, RvMul(t[2], du))
           f == Barrier(p, xp, up, tau) IN
       IF ~RvHasNaN(f) /\ RvLe(f, RvAdd(f0, RvMul("0.01", RvMul(t[2], slope))))
       THEN <<xp, up, t[2]>>
       ELSE SearchS(p, x, u, dx, du, tau, f0, slope, <<t[1] + 1, RvMul("0.5", t[2])>>)
RECURSIVE StageC(_, _, _, _)
(* st = [x, u, k, l1, dx, step, its, ok, unsolved]; an inner solve that leaves more
   than half of its right-hand side ends the stage at the point reached so far *)
StageC(p, tau, o, st) ==
  IF st.k >= o.nmax \/ ~st.ok THEN st
  ELSE LET x == st.x  u == st.u
           from == IF o.warm = 0 THEN RvConst(p.m, "0") ELSE IF o.warm = 2 THEN RvMul(st.step, st.dx) ELSE st.dx
           d == Inexact(p, x, u, tau, o, from)
           slope == RvAdd(RvDot(GradX(p, x, u, tau), d.dx), RvDot(GradU(p, x, u, tau), d.du))
           s == SearchS(p, x, u, d.dx, d.du, tau, Barrier(p, x, u, tau), slope, <<1, MaxStep(p, x, u, d.dx, d.du)>>)
           q == [st EXCEPT !.dx = d.dx, !.its = st.its + d.its] IN
       IF d.ok = "tie" THEN [st EXCEPT !.ok = FALSE]
       ELSE IF d.ok = "no" THEN [st EXCEPT !.its = st.its + d.its, !.unsolved = st.unsolved + 1]   \* ends the stage here
       ELSE IF s = <<>> THEN [st EXCEPT !.ok = FALSE]
       ELSE LET n == [q EXCEPT !.x = s[1], !.u = s[2], !.step = s[3]]
                l1 == RvNrm1(s[1])
                rate == RvDiv(RvAbs(RvSub(st.l1, l1)), l1) IN
            IF RvLt(RvMul("-0.5", slope), o.ntol) \/ RvLt(rate, o.l1tol) THEN n
            ELSE StageC(p, tau, o, [n EXCEPT !.k = st.k + 1, !.l1 = l1])
RECURSIVE StagesC(_, _, _, _, _)
StagesC(p, st, tau, o, j) ==
  IF j > o.lbiter \/ ~st.ok THEN st
  ELSE LET q == StageC(p, tau, o, [st EXCEPT !.k = 1, !.l1 = "inf", !.dx = RvConst(p.m, "0")]) IN
       StagesC(p, [q EXCEPT !.cnt = st.cnt + q.k], RvMul(tau, o.mu), o, j + 1)
RunC(p, x0, o) == StagesC(p, [x |-> x0, u |-> StartU(x0), k |-> 1, l1 |-> "inf", dx |-> RvConst(p.m, "0"), step |-> "0", its |-> 0, ok |-> TRUE, cnt |-> 0, unsolved |-> 0],
                          StartTau(p.m, x0), o, 1)

(* dual bound: any y with ||A'y||_inf <= 1 certifies  l1 >= b'y - eps*||y||  for every feasible point *)
DualFeasible(p, y) == RvLe(RvNrmInf(RvMatTVec(p.A, y)), "1.000000001")
DualValue(p, y) == RvSub(RvDot(p.b, y), RvMul(p.eps, RvNrm2(y)))
===========================================================================
