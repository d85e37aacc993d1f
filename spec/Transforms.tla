---------------------------- MODULE Transforms ----------------------------
(* The transform sets of L1c as linear maps.

   A set-up record s has
     fam  "dct1" | "dct2" | "tva" (DCT+TV analysis) | "tvs" (DCT+TV synthesis) | "mat"
     n    number of measurements,  r, c  rows/columns of the signal
     idx  0-based sample positions (vector),  av, ah  TV weights,
     dim  1 or 2: which DCT,  A  row-major matrix (fam = "mat"). *)
EXTENDS TVOps, Sequences

Tot(s) == s.r * s.c

(* orthonormal inverse DCT (DCT-III) matrix: signal = IdctM(N) * coefficients *)
IdctM(N) == LET k == RvIota(N)
                i == RvAdd(RvMul("2", RvIota(N)), "1")
                w == RvMul(RvSqrt(RvDiv("2", RvInt(N))), RvSet(RvConst(N, "1"), 1, RvSqrt("0.5")))
            IN RvMul(RvCosPi(RvOuter(i, RvDiv(k, RvInt(2 * N)))), RvOuter(RvConst(N, "1"), w))
Idct(s, x) == IF s.dim = 1 THEN RvMatVec(IdctM(Tot(s)), x)
              ELSE RvMatMul(RvMatMul(IdctM(s.r), x, s.r), RvTrans(IdctM(s.c), s.c), s.c)
Dct(s, y)  == IF s.dim = 1 THEN RvMatTVec(IdctM(Tot(s)), y)
              ELSE RvMatMul(RvMatMul(RvTrans(IdctM(s.r), s.r), y, s.r), IdctM(s.c), s.c)
Samp(s, x) == RvGather(x, s.idx)
Scat(s, y) == RvScatter(Tot(s), s.idx, y)

HasV(s) == RvLt("0", s.av)
HasH(s) == RvLt("0", s.ah)
Blocks(s) == 1 + (IF HasV(s) THEN 1 ELSE 0) + (IF HasH(s) THEN 1 ELSE 0)
(* dictionary W = [M, av*Dv, ah*Dh] *)
DictW(s, v) == LET t == Tot(s)
                   b2 == RvSlice(v, t + 1, t)
                   b3 == RvSlice(v, (IF HasV(s) THEN 2 * t ELSE t) + 1, t)
                   m0 == Idct(s, RvSlice(v, 1, t))
                   m1 == IF HasV(s) THEN RvAdd(m0, TvOp("Dy", s.r, s.c, s.av, b2)) ELSE m0
               IN IF HasH(s) THEN RvAdd(m1, TvOp("Dx", s.r, s.c, s.ah, b3)) ELSE m1
DictWt(s, x) == LET m0 == Dct(s, x)
                    m1 == IF HasV(s) THEN RvCat(m0, TvOp("DyT", s.r, s.c, s.av, x)) ELSE m0
                IN IF HasH(s) THEN RvCat(m1, TvOp("DxT", s.r, s.c, s.ah, x)) ELSE m1

(* reported sizes *)
DimN(s) == s.n
DimQ(s) == IF s.fam = "mat" THEN s.c ELSE Tot(s)
DimM(s) == IF s.fam = "mat" THEN s.c ELSE IF s.fam = "tvs" THEN Blocks(s) * Tot(s) ELSE Tot(s)
DimP(s) == IF s.fam = "mat" THEN s.c ELSE IF s.fam = "tva" THEN Blocks(s) * Tot(s) ELSE Tot(s)
Ops == {"Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty"}

RECURSIVE Apply(_, _, _)
Apply(s, op, x) ==
  CASE s.fam \in {"dct1", "dct2"} ->
       (CASE op = "Ax" -> Samp(s, Idct(s, x))
          [] op = "Aty" -> Dct(s, Scat(s, x))
          [] op = "AtAx" -> Apply(s, "Aty", Apply(s, "Ax", x))
          [] op = "Mx" -> Idct(s, x)
          [] op = "Mty" -> Dct(s, x)
          [] op = "Rx" -> Samp(s, x)
          [] op = "Rty" -> Scat(s, x)
          [] op \in {"Wz", "Wtx"} -> x)
    [] s.fam = "tva" ->
       (CASE op \in {"Ax", "Rx"} -> Samp(s, x)
          [] op \in {"Aty", "Rty"} -> Scat(s, x)
          [] op = "AtAx" -> Scat(s, Samp(s, x))
          [] op \in {"Mx", "Mty"} -> x
          [] op = "Wz" -> DictW(s, x)
          [] op = "Wtx" -> DictWt(s, x))
    [] s.fam = "tvs" ->
       (CASE op = "Rx" -> Samp(s, x)
          [] op = "Rty" -> Scat(s, x)
          [] op = "Ax" -> Samp(s, DictW(s, x))
          [] op = "Aty" -> DictWt(s, Scat(s, x))
          [] op = "AtAx" -> Apply(s, "Aty", Apply(s, "Ax", x))
          [] op = "Mx" -> DictW(s, x)
          [] op = "Mty" -> DictWt(s, x)
          \* the identity on the p = rows*cols leading coefficients
          [] op \in {"Wz", "Wtx"} -> RvSlice(x, 1, Tot(s)))
    [] s.fam = "mat" ->
       (CASE op \in {"Ax", "Rx"} -> RvMatVec(s.A, x)
          [] op \in {"Aty", "Rty"} -> RvMatTVec(s.A, x)
          [] op = "AtAx" -> RvMatTVec(s.A, RvMatVec(s.A, x))
          [] op \in {"Mx", "Mty", "Wz", "Wtx"} -> x)

(* length of the input / of the documented output of an operator *)
InLen(s, op) ==
  CASE op \in {"Aty", "Rty"} -> s.n
    [] op = "Rx" -> DimQ(s)
    [] op \in {"Ax", "AtAx"} -> DimM(s)
    [] op = "Mx" -> DimM(s) [] op = "Mty" -> DimQ(s)
    [] op = "Wz" -> DimP(s) [] op = "Wtx" -> DimM(s)
OutLen(s, op) ==
  CASE op \in {"Ax", "Rx"} -> s.n
    [] op \in {"Aty", "AtAx"} -> DimM(s)
    [] op = "Rty" -> DimQ(s)
    [] op = "Mx" -> DimQ(s) [] op = "Mty" -> DimM(s)
    [] op = "Wz" -> (IF s.fam = "tvs" THEN DimP(s) ELSE DimM(s)) [] op = "Wtx" -> DimP(s)

(* rounding scale: norm of the operator times the largest input *)
MatScale(s) == RvMul(RvNrmInf(s.A), RvInt(s.n + s.c))
OpScale(s, op, x) ==
  LET w == RvAdd("1", RvAdd(RvMul("4", s.av), RvMul("4", s.ah))) IN
  RvMul(RvMul(RvNrm2(x), "1"),
        IF s.fam = "mat" THEN (IF op = "AtAx" THEN RvMul(MatScale(s), MatScale(s)) ELSE RvMax("1", MatScale(s)))
        ELSE IF s.fam \in {"tva", "tvs"} THEN RvMul(w, w) ELSE "1")

(* ------------------------------------------------ argument validation ----- *)
IdxOk(idx, tot) == \/ RvLen(idx) = 0
                   \/ RvLe("0", RvMinOf(idx)) /\ RvLt(RvMaxOf(idx), RvInt(tot))
Fits(a) == a.r <= 2147483647 \div a.c          \* the pixels can be counted
(* api: "dct1" and "dct2" do not validate, the others do *)
Valid(a) ==
  CASE a.api \in {"dct1", "dct2"} -> TRUE
    [] a.api = "mat" -> a.n > 0 /\ a.c > 0
    [] a.api = "dct" -> a.n > 0 /\ a.r > 0 /\ a.c > 0 /\ Fits(a) /\ IdxOk(a.idx, a.r * a.c)
    [] a.api = "dcttv" -> /\ a.n > 0 /\ a.r > 0 /\ a.c > 0
                          /\ Fits(a)
                          /\ RvLe("0", a.av) /\ RvLe("0", a.ah)
                          /\ (RvLt("0", a.av) \/ RvLt("0", a.ah)) => a.r > 2 /\ a.c > 2
                          /\ IdxOk(a.idx, a.r * a.c)
OneD(a) == \/ a.api = "dct1"
           \/ a.api \in {"dct", "dcttv"} /\ (a.r = 1 \/ a.c = 1 \/ a.mode = 1)
Record(a) ==
  [fam |-> IF a.api = "mat" THEN "mat"
           ELSE IF a.api = "dcttv" THEN (IF a.bp = 1 THEN "tva" ELSE "tvs")
           ELSE IF OneD(a) THEN "dct1" ELSE "dct2",
   n |-> a.n, r |-> a.r, c |-> a.c, idx |-> a.idx, av |-> a.av, ah |-> a.ah,
   dim |-> IF OneD(a) THEN 1 ELSE 2, A |-> a.A]
Slot(a) == IF a.api = "mat" THEN "M" ELSE "D"
===========================================================================
