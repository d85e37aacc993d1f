----------------------------- MODULE TVModel -----------------------------
(* Design model of the TV operators: the stencils evaluated element by element
   by W workers that take the elements in any order (OpenMP "parallel for").
   Checked over every small image shape: each element is written exactly once,
   nothing outside the image is read or written, the finished output is the
   matrix-vector product, the transposes are adjoint and the composed stencils
   are D'D.  Images are integer-valued. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRows, MaxCols, W

Ops == {"Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy"}
(* the matrices, by definition *)
Row(m, i) == i \div m
Col(m, i) == i % m
MDx(n, m, i, j) == IF Col(m, i) = m - 1 THEN 0 ELSE IF j = i THEN -1 ELSE IF j = i + 1 THEN 1 ELSE 0
MDy(n, m, i, j) == IF Row(m, i) = n - 1 THEN 0 ELSE IF j = i THEN -1 ELSE IF j = i + m THEN 1 ELSE 0
Pix(n, m) == 0 .. (n * m - 1)
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumSet(f, S \ {k})
Mat(op, n, m, i, j) ==
  CASE op = "Dx" -> MDx(n, m, i, j) [] op = "DxT" -> MDx(n, m, j, i)
    [] op = "Dy" -> MDy(n, m, i, j) [] op = "DyT" -> MDy(n, m, j, i)
    [] op = "DxTDx" -> SumSet([k \in Pix(n, m) |-> MDx(n, m, k, i) * MDx(n, m, k, j)], Pix(n, m))
    [] op = "DyTDy" -> SumSet([k \in Pix(n, m) |-> MDy(n, m, k, i) * MDy(n, m, k, j)], Pix(n, m))

(* the stencils: which elements are read, with which coefficient *)
Stencil(op, n, m, i) ==
  LET r == Row(m, i)  c == Col(m, i) IN
  CASE op = "Dx"  -> IF c = m - 1 THEN {} ELSE {<<i, -1>>, <<i + 1, 1>>}
    [] op = "DxT" -> (IF c > 0 THEN {<<i - 1, 1>>} ELSE {}) \cup (IF c < m - 1 THEN {<<i, -1>>} ELSE {})
    [] op = "DxTDx" -> (IF c > 0 THEN {<<i - 1, -1>>} ELSE {}) \cup (IF c < m - 1 THEN {<<i + 1, -1>>} ELSE {})
                       \cup {<<i, (IF c > 0 THEN 1 ELSE 0) + (IF c < m - 1 THEN 1 ELSE 0)>>}
    [] op = "Dy"  -> IF r = n - 1 THEN {} ELSE {<<i, -1>>, <<i + m, 1>>}
    [] op = "DyT" -> (IF r > 0 THEN {<<i - m, 1>>} ELSE {}) \cup (IF r < n - 1 THEN {<<i, -1>>} ELSE {})
    [] op = "DyTDy" -> (IF r > 0 THEN {<<i - m, -1>>} ELSE {}) \cup (IF r < n - 1 THEN {<<i + m, -1>>} ELSE {})
                       \cup {<<i, (IF r > 0 THEN 1 ELSE 0) + (IF r < n - 1 THEN 1 ELSE 0)>>}

VARIABLES oper, nr, nc, x, y, todo, busy
vars == <<oper, nr, nc, x, y, todo, busy>>
Garbage == 99
Code(i) == ((i * i + 3 * i + 1) % 17) - 8
Init == /\ oper \in Ops /\ nr \in 2 .. MaxRows /\ nc \in 2 .. MaxCols
        /\ x = [i \in Pix(nr, nc) |-> Code(i)]
        /\ y = [i \in Pix(nr, nc) |-> Garbage]
        /\ todo = 0 .. nr - 1                       \* work items: image rows
        /\ busy = [w \in 1 .. W |-> <<-1, 0>>]      \* <<row, next column>>
Take(w) == /\ busy[w][1] = -1 /\ todo # {}
           /\ \E r \in todo : busy' = [busy EXCEPT ![w] = <<r, 0>>] /\ todo' = todo \ {r}
           /\ UNCHANGED <<oper, nr, nc, x, y>>
Write(w) == /\ busy[w][1] >= 0
            /\ LET i == busy[w][1] * nc + busy[w][2]
                   st == Stencil(oper, nr, nc, i) IN
               /\ Assert(\A s \in st : s[1] \in Pix(nr, nc), "reads outside the image")
               /\ y' = [y EXCEPT ![i] = SumSet([s \in st |-> s[2] * x[s[1]]], st)]
            /\ busy' = [busy EXCEPT ![w] = IF busy[w][2] = nc - 1 THEN <<-1, 0>> ELSE <<busy[w][1], busy[w][2] + 1>>]
            /\ UNCHANGED <<oper, nr, nc, x, todo>>
Next == \E w \in 1 .. W : Take(w) \/ Write(w)
Done == todo = {} /\ \A w \in 1 .. W : busy[w][1] = -1
Spec == Init /\ [][Next]_vars
Product == Done => \A i \in Pix(nr, nc) : y[i] = SumSet([j \in Pix(nr, nc) |-> Mat(oper, nr, nc, i, j) * x[j]], Pix(nr, nc))
NoSharing == \A v, w \in 1 .. W : v # w /\ busy[v][1] >= 0 => busy[v][1] # busy[w][1]
ASSUME StencilsAreMatrices ==
  \A o \in Ops : \A a \in 2 .. MaxRows, b \in 2 .. MaxCols : \A i \in Pix(a, b), j \in Pix(a, b) :
     Mat(o, a, b, i, j) = SumSet([s \in Stencil(o, a, b, i) |-> IF s[1] = j THEN s[2] ELSE 0], Stencil(o, a, b, i))
============================================================================
