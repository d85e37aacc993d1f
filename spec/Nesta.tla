------------------------------ MODULE Nesta ------------------------------
(* NESTA for  min ||W'x||_1  s.t. ||Ax-b|| <= sigma  with A A' = I.
   A problem is a record [k, A, W, s, n, m, p, b, sigma, L]:
     k = "dense": A (n x m) and W (m x p) are row-major matrices, W = "" is I;
     k = "set":   the operators of the transform set s (module Transforms). *)
EXTENDS Transforms, FiniteSets, TLC

PAx(p, x)  == IF p.k = "dense" THEN RvMatVec(p.A, x) ELSE Apply(p.s, "Ax", x)
PAty(p, y) == IF p.k = "dense" THEN RvMatTVec(p.A, y) ELSE Apply(p.s, "Aty", y)
PWtx(p, x) == IF p.k = "dense" THEN (IF p.W = "" THEN x ELSE RvMatTVec(p.W, x)) ELSE Apply(p.s, "Wtx", x)
PWz(p, z)  == IF p.k = "dense" THEN (IF p.W = "" THEN z ELSE RvMatVec(p.W, z)) ELSE Apply(p.s, "Wz", z)

(* minimiser of (Lmu/2)||x-xx||^2 + <g,x> over ||Ax-b|| <= sigma: with
   q = xx - g/Lmu it is q if feasible, otherwise q + A'(w - Aq) where w is the
   projection of Aq on the ball around b (A A' = I) *)
Project(p, mu, xx, g) ==
  LET q == RvSub(xx, RvMul(RvDiv(mu, p.L), g))
      Aq == PAx(p, q)
      d == RvSub(Aq, p.b)
      nd == RvNrm2(d) IN
  IF RvLe(nd, p.sigma) THEN q
  ELSE RvAdd(q, PAty(p, RvMul(RvSub(RvDiv(p.sigma, nd), "1"), d)))

(* Huber-smoothed l1 norm of W'x and its gradient *)
Huber(mu, t) == LET a == RvAbs(t)
                    small == RvPos(RvSub(mu, a)) IN
                RvSum(RvSel(small, RvDiv(RvMul(a, a), RvMul("2", mu)), RvSub(a, RvMul("0.5", mu))))
Value(p, mu, x) == Huber(mu, PWtx(p, x))
Grad(p, mu, x) == LET t == PWtx(p, x) IN PWz(p, RvDiv(t, RvMax(mu, RvAbs(t))))

Mu0(p) == RvMul("0.9", RvNrmInf(PWtx(p, PAty(p, p.b))))
Beta(from, to, cnt) == RvPow(RvDiv(to, from), RvDiv("1", RvInt(cnt)))

(* mean of a window of values, at most the last ten *)
Last10(s) == IF Len(s) > 10 THEN SubSeq(s, Len(s) - 9, Len(s)) ELSE s
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN "0" ELSE RvAdd(Head(s), SumSeq(Tail(s)))
Mean10(s) == RvDiv(SumSeq(Last10(s)), RvInt(Len(Last10(s))))

RECURSIVE Inner(_, _, _, _, _)
(* inner iterations of one stage up to iteration lim: st = [k, x, gs, win, ..];
   xo is the prox centre. done: the stop test was met; tie: it was within
   rounding of its threshold *)
Inner(p, c, xo, lim, st) ==
  IF st.k >= lim THEN st
  ELSE LET f == Value(p, c.mu, st.x)
           g == Grad(p, c.mu, st.x)
           y == Project(p, c.mu, st.x, g)
           gs == RvAdd(st.gs, RvMul(RvDiv(RvInt(st.k + 1), "2"), g))
           z == Project(p, c.mu, xo, gs)
           tk == RvDiv("2", RvInt(st.k + 3))
           x == RvAdd(RvMul(tk, z), RvMul(RvSub("1", tk), y))
           fbar == IF st.win = <<>> THEN "nan" ELSE Mean10(st.win)
           rel == RvDiv(RvAbs(RvSub(f, fbar)), fbar)
           near == RvLe(RvAbs(RvSub(rel, c.tol)), RvAdd("1e-11", RvMul("1e-6", c.tol)))
           nst == [k |-> st.k + 1, x |-> x, gs |-> gs, win |-> Last10(Append(st.win, f)), tie |-> st.tie \/ near, cut |-> FALSE, done |-> RvLt(rel, c.tol)] IN
       IF nst.done THEN nst ELSE Inner(p, c, xo, lim, nst)
(* one continuation stage, in blocks of 50 iterations (to bound the depth of
   the recursion). A stage also ends after Limit iterations; cut = TRUE if
   the exploration was given up earlier, after cap iterations *)
Limit == 10000
RECURSIVE Stage(_, _, _, _, _)
Stage(p, c, xo, cap, st) ==
  IF st.done \/ st.k >= Limit THEN st
  ELSE IF st.k >= cap THEN [st EXCEPT !.cut = TRUE]
  ELSE LET q == Inner(p, c, xo, st.k + 50, st) IN Stage(p, c, xo, cap, TLCEval(q))
RECURSIVE Outer(_, _, _, _, _, _)
Outer(p, o, bm, bt, j, st) ==
  IF j > o.ncont \/ st.cut THEN st
  ELSE LET c == [mu |-> RvMul(st.mu, bm), tol |-> RvMul(st.tol, bt)]
           q == Stage(p, c, st.x, o.cap, [k |-> 0, x |-> st.x, gs |-> RvConst(p.m, "0"), win |-> <<>>, tie |-> st.tie, cut |-> FALSE, done |-> FALSE]) IN
       Outer(p, o, bm, bt, j + 1, [x |-> q.x, mu |-> c.mu, tol |-> c.tol, tie |-> q.tie, cut |-> q.cut, its |-> st.its + q.k])
NestaRun(p, o) ==
  LET m0 == Mu0(p) IN
  Outer(p, o, Beta(m0, o.mu, o.ncont), Beta("0.1", o.tol, o.ncont), 1,
        [x |-> PAty(p, p.b), mu |-> m0, tol |-> "0.1", tie |-> FALSE, cut |-> FALSE, its |-> 0])
===========================================================================
