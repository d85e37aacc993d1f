-------------------------------- MODULE CG --------------------------------
(* Conjugate gradients with diagonal preconditioner Minv (ones: plain CG) for a
   dense symmetric matrix A, as a state machine on records
   [k, x, r, p, delta].  Best-iterate and stopping rules are stated separately. *)
EXTENDS RealVec, Integers, Sequences

CgStart(A, b, Minv, x0) ==
  LET r == RvSub(b, RvMatVec(A, x0))
      z == RvMul(Minv, r) IN
  [k |-> 0, x |-> x0, r |-> r, p |-> z, delta |-> RvDot(r, z)]
CgStep(A, Minv, s) ==
  LET q == RvMatVec(A, s.p)
      al == RvDiv(s.delta, RvDot(s.p, q))
      r == RvSub(s.r, RvMul(al, q))
      z == RvMul(Minv, r)
      dn == RvDot(r, z) IN
  [k |-> s.k + 1, x |-> RvAdd(s.x, RvMul(al, s.p)), r |-> r,
   p |-> RvAdd(z, RvMul(RvDiv(dn, s.delta), s.p)), delta |-> dn]
RelRes(A, b, x) == RvDiv(RvNrm2(RvSub(b, RvMatVec(A, x))), RvNrm2(b))
RECURSIVE CgRun(_, _, _, _)
(* the states visited by n steps, start included *)
CgRun(A, Minv, s, n) == IF n = 0 THEN <<s>> ELSE <<s>> \o CgRun(A, Minv, CgStep(A, Minv, s), n - 1)
===========================================================================
