----------------------------- MODULE MexModel -----------------------------
(* Why the binding may hand a column-major R-by-C image to the row-major solver
   as a C-by-R image: over all small images, reading the memory that way gives
   the transposed image, the anisotropic TV and the data term are the same, and
   writing the result back in the same order gives an R-by-C image in the
   caller's eyes.  Also: 1-based positions map one-to-one onto 0-based ones. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxR, MaxC, Vals
VARIABLES R, C, X      \* X: function of (row, column), both from 0
ColMem(x, r, c) == [k \in 0 .. r * c - 1 |-> x[<<k % r, k \div r>>]]
RowRead(mem, r, c) == [p \in (0 .. r - 1) \X (0 .. c - 1) |-> mem[p[1] * c + p[2]]]
RowMem(x, r, c) == [k \in 0 .. r * c - 1 |-> x[<<k \div c, k % c>>]]
ColRead(mem, r, c) == [p \in (0 .. r - 1) \X (0 .. c - 1) |-> mem[p[1] + r * p[2]]]
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + Sum(f, S \ {s})
TV(x, r, c) == LET H == (0 .. r - 1) \X (0 .. c - 2)  V == (0 .. r - 2) \X (0 .. c - 1) IN
               Sum([p \in H |-> Abs(x[<<p[1], p[2] + 1>>] - x[p])], H) + Sum([p \in V |-> Abs(x[<<p[1] + 1, p[2]>>] - x[p])], V)
Tr(x, r, c) == [p \in (0 .. c - 1) \X (0 .. r - 1) |-> x[<<p[2], p[1]>>]]
Init == \E r \in 1 .. MaxR, c \in 1 .. MaxC : R = r /\ C = c /\ X \in [(0 .. r - 1) \X (0 .. c - 1) -> Vals]
Next == UNCHANGED <<R, C, X>>
Spec == Init /\ [][Next]_<<R, C, X>>
Transposed == RowRead(ColMem(X, R, C), C, R) = Tr(X, R, C)
SameTV == TV(RowRead(ColMem(X, R, C), C, R), C, R) = TV(X, R, C)
RoundTrip == ColRead(RowMem(RowRead(ColMem(X, R, C), C, R), C, R), R, C) = X
OneBased == {k - 1 : k \in 1 .. R * C} = 0 .. R * C - 1
===========================================================================
