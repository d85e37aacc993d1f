------------------------------ MODULE TVOps ------------------------------
(* The total-variation difference operators of an n-by-m image stored row by
   row, as maps on real vectors (RealVec).  DyF is the vertical forward
   difference with a zero last row; the horizontal operators are the vertical
   ones of the transposed image; transposes are the adjoint maps. *)
EXTENDS RealVec, Integers

DyF(n, m, x)  == RvCat(RvSub(RvSlice(x, m + 1, (n - 1) * m), RvSlice(x, 1, (n - 1) * m)), RvConst(m, "0"))
DyTF(n, m, y) == LET top == RvSlice(y, 1, (n - 1) * m) IN
                 RvSub(RvCat(RvConst(m, "0"), top), RvCat(top, RvConst(m, "0")))
DxF(n, m, x)  == RvTrans(DyF(m, n, RvTrans(x, n)), m)
DxTF(n, m, y) == RvTrans(DyTF(m, n, RvTrans(y, n)), m)

TvOp(op, n, m, al, x) ==
  CASE op = "Dx"    -> RvMul(al, DxF(n, m, x))
    [] op = "DxT"   -> RvMul(al, DxTF(n, m, x))
    [] op = "DxTDx" -> RvMul(RvMul(al, al), DxTF(n, m, DxF(n, m, x)))
    [] op = "Dy"    -> RvMul(al, DyF(n, m, x))
    [] op = "DyT"   -> RvMul(al, DyTF(n, m, x))
    [] op = "DyTDy" -> RvMul(RvMul(al, al), DyTF(n, m, DyF(n, m, x)))

(* magnitude that rounding errors of the operator are measured against *)
TvScale(op, al, x) == RvMul(RvNrmInf(x), IF op \in {"DxTDx", "DyTDy"} THEN RvMul(al, al) ELSE RvAbs(al))
===========================================================================
