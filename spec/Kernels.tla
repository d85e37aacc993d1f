------------------------------ MODULE Kernels ------------------------------
(* The vector kernels as maps on real vectors.  Map(op, ...) is the new content
   of the output vector, Red(op, ...) the returned scalar; Scale the magnitude
   rounding errors are measured against.  x, y, z are the vectors before the
   call, a and b scalars. *)
EXTENDS RealVec, Integers
Maps == {"daxpby", "daxpby0", "init", "dxmuly", "daxpbyz", "daxpyz", "abs", "vmulpz"}
OutOf(op) == CASE op \in {"daxpby", "daxpby0", "init", "abs"} -> "y" [] OTHER -> "z"
Map(op, len, a, b, x, y, z) ==
  CASE op \in {"daxpby", "daxpby0"} -> RvAdd(RvMul(a, x), RvMul(b, y))
    [] op = "init" -> RvConst(len, a)
    [] op = "dxmuly" -> RvMul(x, y)
    [] op = "daxpbyz" -> RvAdd(RvMul(a, x), RvMul(b, y))
    [] op = "daxpyz" -> RvAdd(RvMul(a, x), y)
    [] op = "abs" -> RvAbs(x)
    [] op = "vmulpz" -> RvAdd(RvMul(x, y), z)
MapScale(op, a, b, x, y, z) ==
  CASE op \in {"daxpby", "daxpby0", "daxpbyz"} -> RvAdd(RvAbs(RvMul(a, x)), RvAbs(RvMul(b, y)))
    [] op = "daxpyz" -> RvAdd(RvAbs(RvMul(a, x)), RvAbs(y))
    [] op = "vmulpz" -> RvAdd(RvAbs(RvMul(x, y)), RvAbs(z))
    [] OTHER -> "0"
Red(op, len, a, x, y) ==
  CASE op = "norm1" -> RvNrm1(x)
    [] op \in {"sum", "vsum"} -> RvSum(x)
    [] op \in {"logsum", "vlogsum"} -> RvSum(RvLog(RvMul(a, x)))
    [] op = "relerr" -> RvDiv(RvNrm2(RvSub(x, y)), RvNrm2(y))
    [] op = "err" -> RvNrm2(RvSub(x, y))
    [] op = "max" -> IF len <= 0 THEN "nan" ELSE RvMaxOf(x)
RedScale(op, len, a, x, y) ==
  CASE op \in {"norm1", "sum", "vsum"} -> RvNrm1(x)
    [] op \in {"logsum", "vlogsum"} -> RvAdd(RvInt(len), RvNrm1(RvLog(RvAbs(RvMul(a, x)))))
    [] op = "max" -> "0"
    [] OTHER -> Red(op, len, a, x, y)
(* elementwise comparison relative to the scale of that element; non-finite
   elements must agree *)
Near(got, want, sc, tol) ==
  LET fin == RvSub(got, got)      \* 0 where finite, NaN elsewhere
  IN RvLen(got) = RvLen(want) /\
     IF RvFinite(got) /\ RvFinite(want) THEN RvLe(RvAbs(RvSub(got, want)), RvAdd("1e-300", RvMul(tol, RvAdd(sc, RvAbs(want)))))
     ELSE RvCloseEl(got, want, "1e-300", "1e-12")
=============================================================================
