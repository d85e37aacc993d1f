----------------------------- MODULE KernModel -----------------------------
(* Design of the kernels: (map) the index range is cut into contiguous chunks,
   one per worker, and the workers interleave arbitrarily; (red) a main loop of
   width V over the largest multiple of V, a scalar remainder loop, partial
   sums merged at the end, and the parallel reduction with a private partial
   sum per worker.  For every length up to NMax: each index is owned by exactly
   one worker and processed exactly once, and the result is the definition.
   Element values: distinct powers of two, so a sum identifies the index set. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NMax, W, V
VARIABLES len, vlen, pos, part, out, merged, total, vpos, vpart, spart
vars == <<len, vlen, pos, part, out, merged, total, vpos, vpart, spart>>
Lo(k) == ((k - 1) * len) \div W
Hi(k) == (k * len) \div W          \* worker k owns Lo(k) .. Hi(k)-1
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Regular == len - (len % V)
Init == /\ len \in 0 .. NMax /\ vlen = Regular
        /\ pos = [k \in 1 .. W |-> Lo(k)] /\ part = [k \in 1 .. W |-> 0]
        /\ out = [j \in 0 .. len - 1 |-> 0] /\ merged = {} /\ total = 0
        /\ vpos = 0 /\ vpart = [j \in 0 .. V - 1 |-> 0] /\ spart = 0
StepW(k) == /\ pos[k] < Hi(k)
            /\ out' = [out EXCEPT ![pos[k]] = @ + 1]
            /\ part' = [part EXCEPT ![k] = @ + P2(pos[k])]
            /\ pos' = [pos EXCEPT ![k] = @ + 1] /\ UNCHANGED <<len, vlen, merged, total, vpos, vpart, spart>>
Merge(k) == /\ pos[k] = Hi(k) /\ k \notin merged
            /\ total' = total + part[k] /\ merged' = merged \cup {k} /\ UNCHANGED <<len, vlen, pos, part, out, vpos, vpart, spart>>
(* the vector loop runs in one thread; independent of the workers, so it is
   scheduled first *)
Vec == /\ vpos < vlen
       /\ vpart' = [j \in 0 .. V - 1 |-> vpart[j] + P2(vpos + j)] /\ vpos' = vpos + V
       /\ UNCHANGED <<len, vlen, pos, part, out, merged, total, spart>>
Rem == /\ vpos >= vlen /\ vpos < len
       /\ spart' = spart + P2(vpos) /\ vpos' = vpos + 1
       /\ UNCHANGED <<len, vlen, pos, part, out, merged, total, vpart>>
Next == Vec \/ Rem \/ (vpos >= len /\ \E k \in 1 .. W : StepW(k) \/ Merge(k))
Spec == Init /\ [][Next]_vars
Bounds == vpos <= len /\ \A k \in 1 .. W : pos[k] <= len
Once == \A j \in 0 .. len - 1 : out[j] <= 1
RECURSIVE SumF(_, _)
SumF(f, k) == IF k < 0 THEN 0 ELSE f[k] + SumF(f, k - 1)
Exact == P2(len) - 1
VecDone == vpos = len => SumF(vpart, V - 1) + spart = Exact
ParDone == merged = 1 .. W => total = Exact /\ \A j \in 0 .. len - 1 : out[j] = 1
=============================================================================
