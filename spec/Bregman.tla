------------------------------ MODULE Bregman ------------------------------
(* Split-Bregman iteration for anisotropic TV denoising of an n-by-m image f,
     min |Dx u|_1 + |Dy u|_1 + (mu/2)|u - f|^2 ,
   with penalty la = 2 mu.  The quadratic sub-problem H u = rhs,
   H = mu I + la (Dx'Dx + Dy'Dy), is treated by row-major Gauss-Seidel sweeps,
   i.e. by the splitting H = (lower triangle) + (strict upper triangle). *)
EXTENDS TVOps, Sequences

Nb(n, m) == n * m
(* number of neighbours of every pixel *)
Degree(n, m) ==
  LET edge(k) == RvCat("1", RvCat(RvConst(k - 2, "2"), "1")) IN
  RvAdd(RvOuter(edge(n), RvConst(m, "1")), RvOuter(RvConst(n, "1"), edge(m)))
(* -1 where pixels are neighbours: from the one-dimensional path graphs *)
RECURSIVE LapRows(_, _, _, _)
LapRows(n, m, N, k) ==      \* rows k..N of Dx'Dx + Dy'Dy (symmetric: built from images of the basis vectors)
  IF k > N THEN "" ELSE
  LET e == RvScatter(N, RvInt(k - 1), "1")
      r == RvAdd(TvOp("DxTDx", n, m, "1", e), TvOp("DyTDy", n, m, "1", e)) IN
  RvCat(r, LapRows(n, m, N, k + 1))
Lap(n, m) == LapRows(n, m, n * m, 1)
LowMask(N) == RvPos(RvAdd("0.5", RvSub(RvOuter(RvIota(N), RvConst(N, "1")), RvOuter(RvConst(N, "1"), RvIota(N)))))

Hess(lap, N, mu, la) == RvAdd(RvMul(la, lap), RvDiag(RvConst(N, mu)))
(* one Gauss-Seidel sweep: (D + L) u' = rhs - U u *)
Sweep(H, mask, u, rhs) ==
  LET lo == RvMul(H, mask)
      up == RvSub(H, lo) IN
  RvSolve(lo, RvSub(rhs, RvMatVec(up, u)))
RECURSIVE Sweeps(_, _, _, _, _)
Sweeps(H, mask, u, rhs, k) == IF k = 0 THEN u ELSE Sweeps(H, mask, Sweep(H, mask, u, rhs), rhs, k - 1)
(* one Jacobi sweep: D u' = rhs - (L + U) u *)
JacobiStep(H, dinv, u, rhs) == RvAdd(u, RvMul(dinv, RvSub(rhs, RvMatVec(H, u))))

Rhs(n, m, f, dx, bx, dy, by, mu, la) ==
  RvAdd(RvMul(mu, f), RvMul(la, RvAdd(DxTF(n, m, RvSub(dx, bx)), DyTF(n, m, RvSub(dy, by)))))
Shrink(x, g) == RvMul(RvSub(RvPos(x), RvPos(RvNeg(x))), RvMax(RvSub(RvAbs(x), g), "0"))

(* the iteration; result: the returned image, the number of iterations, and
   whether a stop test was decided by less than the comparison tolerance *)
RECURSIVE Iter(_, _, _)
Iter(c, s, k) ==
  IF k > c.maxit THEN s ELSE
  LET rhs == Rhs(c.n, c.m, c.f, s.dx, s.bx, s.dy, s.by, c.mu, c.la)
      u == Sweeps(c.H, c.mask, s.u, rhs, c.jac)
      err == RvDiv(RvNrm2(RvSub(u, s.up)), RvNrm2(s.up))
      dxu == RvAdd(DxF(c.n, c.m, u), s.bx)
      dyu == RvAdd(DyF(c.n, c.m, u), s.by)
      dx == Shrink(dxu, RvDiv("1", c.la))
      dy == Shrink(dyu, RvDiv("1", c.la))
      t == [u |-> u, up |-> u, dx |-> dx, dy |-> dy, bx |-> RvSub(dxu, dx), by |-> RvSub(dyu, dy), it |-> k,
            tie |-> s.tie \/ RvLe(RvAbs(RvSub(err, c.tol)), RvMul("1e-5", c.tol))] IN
  IF RvLt(err, c.tol) THEN t ELSE Iter(c, t, k + 1)

BregRun(n, m, lap, f, mu, tol, maxit, jac) ==
  LET N == n * m
      z == RvConst(N, "0")
      la == RvMul("2", mu)
      c == [n |-> n, m |-> m, f |-> f, mu |-> mu, la |-> la, tol |-> tol, maxit |-> maxit, jac |-> jac,
            H |-> Hess(lap, N, mu, la), mask |-> LowMask(N)] IN
  Iter(c, [u |-> f, up |-> z, dx |-> z, dy |-> z, bx |-> z, by |-> z, it |-> 0, tie |-> FALSE], 1)

(* objective, and the dual bound of a field (px, py) with |p| <= 1 *)
TvObjective(n, m, f, mu, u) ==
  RvAdd(RvAdd(RvNrm1(DxF(n, m, u)), RvNrm1(DyF(n, m, u))), RvMul(RvDiv(mu, "2"), RvDot(RvSub(u, f), RvSub(u, f))))
TvDual(n, m, f, mu, px, py) ==
  LET g == RvAdd(DxTF(n, m, px), DyTF(n, m, py)) IN RvSub(RvDot(f, g), RvDiv(RvDot(g, g), RvMul("2", mu)))
=============================================================================
