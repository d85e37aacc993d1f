----------------------------- MODULE BregModel -----------------------------
(* Control skeleton of the denoiser over all shapes up to N x M, all numbers of
   sweeps and all outcomes of the stop test.  Values are abstracted to version
   numbers: ver[i] counts how often pixel i was updated in the current
   iteration.  Reading a neighbour during a sweep must give the new value for
   pixels before i in row-major order and the old one for pixels after i
   (Gauss-Seidel).  In addition, the soft threshold on integers is the
   minimiser of |d| + (d-x)^2/(2g) over the integers near x. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NMax, MMax, ItMax, JacMax
VARIABLES n, m, jac, maxit, pc, it, swp, px, ver, reads, conv, shr, copied
vars == <<n, m, jac, maxit, pc, it, swp, px, ver, reads, conv, shr, copied>>
Pix == 0 .. n * m - 1
Nbr(p) == {q \in Pix : \/ q = p + m \/ q = p - m
                       \/ q = p + 1 /\ (p + 1) % m # 0
                       \/ q = p - 1 /\ p % m # 0}
Init == /\ n \in 3 .. NMax /\ m \in 3 .. MMax /\ jac \in 0 .. JacMax /\ maxit \in 0 .. ItMax
        /\ pc = "iter" /\ it = 1 /\ swp = 0 /\ px = 0 /\ conv = FALSE /\ shr = 0 /\ copied = 0
        /\ ver = [p \in 0 .. n * m - 1 |-> 0] /\ reads = {}
Begin == /\ pc = "iter" /\ it <= maxit /\ ~conv
         /\ pc' = "sweep" /\ swp' = 1 /\ px' = 0 /\ ver' = [p \in Pix |-> 0] /\ reads' = {}
         /\ UNCHANGED <<n, m, jac, maxit, it, conv, shr, copied>>
Pixel == /\ pc = "sweep" /\ swp <= jac
         /\ reads' = {<<px, q, ver[q]>> : q \in Nbr(px)}
         /\ ver' = [ver EXCEPT ![px] = swp]
         /\ IF px = n * m - 1 THEN px' = 0 /\ swp' = swp + 1 ELSE px' = px + 1 /\ swp' = swp
         /\ UNCHANGED <<n, m, jac, maxit, pc, it, conv, shr, copied>>
(* shrink and Bregman update happen in every iteration, also in the last one;
   the stop test uses the change made by this iteration's sweeps *)
Finish == /\ pc = "sweep" /\ swp > jac
          /\ shr' = shr + 1 /\ copied' = it /\ reads' = {}
          /\ \E c \in (IF it = 1 THEN {FALSE} ELSE {TRUE, FALSE}) : conv' = c
          /\ it' = it + 1 /\ pc' = "iter" /\ UNCHANGED <<n, m, jac, maxit, swp, px, ver>>
Stop == pc = "iter" /\ (it > maxit \/ conv) /\ pc' = "done" /\ UNCHANGED <<n, m, jac, maxit, it, swp, px, ver, reads, conv, shr, copied>>
Next == Begin \/ Pixel \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SeidelReads == \A r \in reads : r[3] = IF r[2] < r[1] THEN ver[r[1]] ELSE ver[r[1]] - 1
EverySwept == pc = "iter" /\ it > 1 => \A p \in Pix : ver[p] = jac
Degrees == \A p \in Pix : LET r == p \div m
                              c == p % m
                              e == (IF r \in {0, n - 1} THEN 1 ELSE 0) + (IF c \in {0, m - 1} THEN 1 ELSE 0) IN
           \E k \in {2, 3, 4} : k = 4 - e /\ \E S \in {Nbr(p)} : (IF p - m \in S THEN 1 ELSE 0) + (IF p + m \in S THEN 1 ELSE 0) + (IF p - 1 \in S THEN 1 ELSE 0) + (IF p + 1 \in S THEN 1 ELSE 0) = k
Done == pc = "done" => /\ shr = it - 1 /\ copied = shr /\ it - 1 <= maxit
                       /\ (it - 1 < maxit => conv)
Ends == <>(pc = "done")
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Shr(x, g) == Sgn(x) * (IF Abs(x) > g THEN Abs(x) - g ELSE 0)
ASSUME ShrinkIsProx == \A x \in -6 .. 6, g \in 1 .. 4 : \A d \in -8 .. 8 :
          2 * g * Abs(Shr(x, g)) + (Shr(x, g) - x) * (Shr(x, g) - x) <= 2 * g * Abs(d) + (d - x) * (d - x)
=============================================================================
