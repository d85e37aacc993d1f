---------------------------- MODULE RealVec ----------------------------
(* Real vectors for TLC.  A real vector is a TLA+ string: either decimal doubles
   separated by blanks ("1.5 -2 nan") or an interned handle produced by one of
   the operators below.  A scalar is a vector of length one.  The operators are
   evaluated by spec/java/RealVec.java (TLC module override) in IEEE double
   arithmetic; the TLA+ bodies are place-holders that TLC never evaluates.
   Generated by tools/mkrealvec.py. *)
EXTENDS Naturals, Sequences

\* elementwise sum (length-one operands broadcast)
RvAdd(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise difference
RvSub(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise product; with a length-one operand this is scaling
RvMul(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise quotient
RvDiv(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise maximum
RvMax(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise minimum
RvMin(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise power
RvPow(a, b) == CHOOSE zz_ \in {""} : TRUE
\* elementwise negation
RvNeg(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise absolute value
RvAbs(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise square root
RvSqrt(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise natural logarithm (NaN below zero, -inf at zero)
RvLog(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise exponential
RvExp(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise cosine of PI times the argument, reduced exactly
RvCosPi(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise ceiling
RvCeil(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise: 1 if positive else 0
RvPos(a) == CHOOSE zz_ \in {""} : TRUE
\* elementwise choice: where m is non-zero take a, otherwise b
RvSel(m, a, b) == CHOOSE zz_ \in {""} : TRUE
\* sum of the elements (compensated)
RvSum(a) == CHOOSE zz_ \in {""} : TRUE
\* inner product
RvDot(a, b) == CHOOSE zz_ \in {""} : TRUE
\* Euclidean norm
RvNrm2(a) == CHOOSE zz_ \in {""} : TRUE
\* sum of absolute values
RvNrm1(a) == CHOOSE zz_ \in {""} : TRUE
\* largest absolute value (0 for the empty vector)
RvNrmInf(a) == CHOOSE zz_ \in {""} : TRUE
\* largest element (NaN for the empty vector; NaN elements are skipped unless first)
RvMaxOf(a) == CHOOSE zz_ \in {""} : TRUE
\* smallest element (+inf for the empty vector)
RvMinOf(a) == CHOOSE zz_ \in {""} : TRUE
\* every element of a is strictly below the matching element of b
RvLt(a, b) == CHOOSE zz_ \in {""} : TRUE
\* every element of a is at most the matching element of b
RvLe(a, b) == CHOOSE zz_ \in {""} : TRUE
\* same length and numerically equal elements; NaN equals NaN
RvEq(a, b) == CHOOSE zz_ \in {""} : TRUE
\* same length and bit-identical elements up to NaN payload (distinguishes -0 from 0)
RvSame(a, b) == CHOOSE zz_ \in {""} : TRUE
\* same length and |a-b| <= atol + rtol*max|b| elementwise; non-finite elements must agree exactly
RvClose(a, b, atol, rtol) == CHOOSE zz_ \in {""} : TRUE
\* same length and |a_i-b_i| <= atol + rtol*|b_i| for every i; non-finite elements must agree exactly
RvCloseEl(a, b, atol, rtol) == CHOOSE zz_ \in {""} : TRUE
\* some element is NaN
RvHasNaN(a) == CHOOSE zz_ \in {""} : TRUE
\* every element is finite
RvFinite(a) == CHOOSE zz_ \in {""} : TRUE
\* number of elements (TLA+ integer)
RvLen(a) == CHOOSE zz_ \in {""} : TRUE
\* element i, 1-based, as a length-one vector
RvAt(a, i) == CHOOSE zz_ \in {""} : TRUE
\* replace element i (1-based)
RvSet(a, i, x) == CHOOSE zz_ \in {""} : TRUE
\* cnt elements starting at 1-based position i
RvSlice(a, i, cnt) == CHOOSE zz_ \in {""} : TRUE
\* concatenation
RvCat(a, b) == CHOOSE zz_ \in {""} : TRUE
\* cnt copies of the scalar c
RvConst(cnt, c) == CHOOSE zz_ \in {""} : TRUE
\* the vector 0, 1, ..., cnt-1
RvIota(cnt) == CHOOSE zz_ \in {""} : TRUE
\* a[idx] for a vector of 0-based indices
RvGather(a, idx) == CHOOSE zz_ \in {""} : TRUE
\* zero vector of length cnt with a[i] stored at 0-based idx[i] (last write wins)
RvScatter(cnt, idx, a) == CHOOSE zz_ \in {""} : TRUE
\* outer product, row-major
RvOuter(a, b) == CHOOSE zz_ \in {""} : TRUE
\* row-major matrix with Len(x) columns times vector
RvMatVec(A, x) == CHOOSE zz_ \in {""} : TRUE
\* transpose of a row-major matrix with Len(y) rows times vector
RvMatTVec(A, y) == CHOOSE zz_ \in {""} : TRUE
\* matrix product of row-major A (k columns) and B (k rows)
RvMatMul(A, B, k) == CHOOSE zz_ \in {""} : TRUE
\* transpose of a row-major matrix with the given number of rows
RvTrans(A, rows) == CHOOSE zz_ \in {""} : TRUE
\* row-major diagonal matrix
RvDiag(a) == CHOOSE zz_ \in {""} : TRUE
\* solution of the square row-major system A x = b (Gaussian elimination, partial pivoting)
RvSolve(A, b) == CHOOSE zz_ \in {""} : TRUE
\* spectral norm of a row-major matrix with the given number of columns (power iteration on A'A; lower bound accurate to about 1e-6)
RvSpec(A, cols) == CHOOSE zz_ \in {""} : TRUE
\* TLA+ integer as a real scalar
RvInt(k) == CHOOSE zz_ \in {""} : TRUE
\* real scalar as a TLA+ integer (must be integral)
RvToInt(a) == CHOOSE zz_ \in {""} : TRUE
\* readable rendering of the first elements, for messages
RvShow(a) == CHOOSE zz_ \in {""} : TRUE
\* largest |a-b| with its position, for messages
RvDiff(a, b) == CHOOSE zz_ \in {""} : TRUE
========================================================================
