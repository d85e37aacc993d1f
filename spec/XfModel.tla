----------------------------- MODULE XfModel -----------------------------
(* Design model of the transform sets as they are built: file-level state
   (dimensions, sample positions, scratch buffers, dictionary layout) shared by
   all calls, scratch buffers that are not cleared between calls, set-ups that
   may be refused, destroy, re-set-up with other arguments.  The transform M is
   an integer stand-in (prefix sums, so M' # M).  Checked over every history:
   each operator result is the one of the mathematical definition for the
   arguments of the latest successful set-up (HistoryFree); scratch discipline
   (Sparse); a set that is not live is never used. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tot, NX          \* signal length; number of test inputs
Pos == 0 .. Tot - 1
Vecs == [Pos -> Int]
M(x)  == [i \in Pos |-> LET RECURSIVE P(_) P(k) == IF k < 0 THEN 0 ELSE x[k] + P(k - 1) IN P(i)]
Mt(y) == [i \in Pos |-> LET RECURSIVE Q(_) Q(k) == IF k > Tot - 1 THEN 0 ELSE y[k] + Q(k + 1) IN Q(i)]
Inp(k) == [i \in Pos |-> ((7 * k + 3 * i + i * i) % 5) - 2]
IdxSets == {s \in UNION {[1 .. n -> Pos] : n \in 1 .. 2} : \A a, b \in DOMAIN s : a # b => s[a] # s[b]}
Zero == [i \in Pos |-> 0]
Scatter(s, y) == [i \in Pos |-> IF \E a \in DOMAIN s : s[a] = i THEN y[CHOOSE a \in DOMAIN s : s[a] = i] ELSE 0]
Gather(s, x) == [a \in DOMAIN s |-> x[s[a]]]
Ops == {"Ax", "Aty", "AtAx", "Mx", "Mty", "Rx", "Rty"}
Def(s, op, k) ==
  LET x == Inp(k)
      y == Gather(s, Inp(k)) IN
  CASE op = "Ax" -> Gather(s, M(x)) [] op = "Aty" -> Mt(Scatter(s, y))
    [] op = "AtAx" -> Mt(Scatter(s, Gather(s, M(x)))) [] op = "Mx" -> M(x) [] op = "Mty" -> Mt(x)
    [] op = "Rx" -> Gather(s, x) [] op = "Rty" -> Scatter(s, y)

VARIABLES liveD,              \* arguments of the live set (sample positions), or <<>>
          st_idx, Ety, bx, by, \* file-level state of the implementation
          out, want, owned
vars == <<liveD, st_idx, Ety, bx, by, out, want, owned>>
Garb == [i \in Pos |-> 9]
Init == /\ liveD = <<>> /\ st_idx = <<>> /\ Ety = Garb /\ bx = Garb /\ by = Garb
        /\ out = <<>> /\ want = <<>> /\ owned = 0
Setup(s) == /\ liveD = <<>>
            /\ liveD' = s /\ st_idx' = s
            /\ Ety' = Zero /\ bx' = Zero /\ by' = Zero
            /\ owned' = owned + 5
            /\ out' = <<>> /\ want' = <<>>
(* a refused set-up validates before it touches anything *)
Refused == UNCHANGED <<liveD, st_idx, Ety, bx, by, owned>> /\ out' = <<>> /\ want' = <<>>
Put(e, s, v) == [i \in Pos |-> IF \E a \in DOMAIN s : s[a] = i THEN v[CHOOSE a \in DOMAIN s : s[a] = i] ELSE e[i]]
Call(op, k) ==
  /\ liveD # <<>>
  /\ LET x == Inp(k)
         y == Gather(st_idx, x) IN
     /\ CASE op = "Ax" -> by' = M(x) /\ bx' = x /\ Ety' = Ety /\ out' = Gather(st_idx, M(x))
          [] op = "Aty" -> Ety' = Put(Ety, st_idx, y) /\ bx' = Mt(Put(Ety, st_idx, y)) /\ by' = by /\ out' = Mt(Put(Ety, st_idx, y))
          [] op = "AtAx" -> LET e == Put(Ety, st_idx, Gather(st_idx, M(x))) IN
                            by' = M(x) /\ Ety' = e /\ bx' = Mt(e) /\ out' = Mt(e)
          [] op = "Mx" -> bx' = x /\ out' = M(x) /\ UNCHANGED <<Ety, by>>
          [] op = "Mty" -> out' = Mt(x) /\ UNCHANGED <<Ety, bx, by>>
          [] op = "Rx" -> out' = Gather(st_idx, x) /\ UNCHANGED <<Ety, bx, by>>
          [] op = "Rty" -> out' = Scatter(st_idx, y) /\ UNCHANGED <<Ety, bx, by>>
     /\ want' = Def(liveD, op, k)
  /\ UNCHANGED <<liveD, st_idx, owned>>
Destroy == /\ liveD # <<>> /\ liveD' = <<>> /\ owned' = owned - 5
           /\ UNCHANGED <<st_idx, Ety, bx, by>> /\ out' = <<>> /\ want' = <<>>
Next == (\E s \in IdxSets : Setup(s)) \/ Refused \/ Destroy \/ \E op \in Ops, k \in 1 .. NX : Call(op, k)
Spec == Init /\ [][Next]_vars
HistoryFree == out = want
Sparse == liveD # <<>> => \A i \in Pos : (\A a \in DOMAIN liveD : liveD[a] # i) => Ety[i] = 0
Conserved == owned = (IF liveD = <<>> THEN 0 ELSE 5)
===========================================================================
