------------------------------ MODULE MemModel ------------------------------
(* Allocation helpers over an abstract heap of Cells cells with first-fit
   placement anywhere free (non-deterministic), dirty recycled memory, and a
   fault that fails any one request.  A 1-D block is one request; a 2-D block
   with r rows is 1 + r requests obtained one after the other, rolled back on
   failure.  Every history up to L operations is explored; the histories are
   printed for replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cells, L, Slots
Cell == 1 .. Cells
VARIABLES heap,   \* cell -> content: "dirty", "zero", or the slot that wrote it
          own,    \* slot -> sequence of cell sets (one per request), <<>> when unused
          kind, hist
vars == <<heap, own, kind, hist>>
Used == UNION {UNION {own[s][k] : k \in 1 .. Len(own[s])} : s \in Slots}
Free == Cell \ Used
Init == heap = [c \in Cell |-> "dirty"] /\ own = [s \in Slots |-> <<>>] /\ kind = [s \in Slots |-> "none"] /\ hist = <<>>
(* requests of one allocation: each takes one free cell; fl is the request that fails *)
RECURSIVE Grab(_, _, _)
Grab(k, fl, got) == IF k = 0 THEN {got} ELSE
  IF Len(got) + 1 = fl THEN {<<{}>>} ELSE
  LET fr == Free \ UNION {got[j] : j \in 1 .. Len(got)} IN
  IF fr = {} THEN {<<{}>>} ELSE LET c == CHOOSE c \in fr : \A e \in fr : c <= e IN Grab(k - 1, fl, Append(got, {c}))
Reqs(kd) == IF kd \in {"m1", "c1"} THEN 1 ELSE 3
Alloc(s, kd, fl) ==
  /\ own[s] = <<>>
  /\ \E g \in Grab(Reqs(kd), fl, <<>>) :
       IF g = <<{}>> THEN /\ UNCHANGED <<heap, own, kind>>      \* NULL; everything obtained was returned
       ELSE /\ own' = [own EXCEPT ![s] = g] /\ kind' = [kind EXCEPT ![s] = kd]
            /\ heap' = [c \in Cell |-> IF kd \in {"c1", "c2"} /\ \E j \in 1 .. Len(g) : c \in g[j] THEN "zero" ELSE heap[c]]
  /\ hist' = Append(hist, <<"alloc", s, kd, fl>>)
Write(s) == /\ own[s] # <<>>
            /\ heap' = [c \in Cell |-> IF \E j \in 1 .. Len(own[s]) : c \in own[s][j] THEN s ELSE heap[c]]
            /\ UNCHANGED <<own, kind>> /\ hist' = Append(hist, <<"write", s, "", 0>>)
Release(s) == /\ own[s] # <<>> /\ own' = [own EXCEPT ![s] = <<>>] /\ kind' = [kind EXCEPT ![s] = "none"]
              /\ UNCHANGED heap /\ hist' = Append(hist, <<"free", s, "", 0>>)
Null == UNCHANGED <<heap, own, kind>> /\ hist' = Append(hist, <<"freenull", "a", "", 0>>)
Next == /\ Len(hist) < L
        /\ \/ \E s \in Slots, kd \in {"m1", "c1", "m2", "c2"}, fl \in 0 .. 3 : fl <= Reqs(kd) /\ Alloc(s, kd, fl)
           \/ \E s \in Slots : Write(s) \/ Release(s)
           \/ (hist = <<>> /\ Null)
Spec == Init /\ [][Next]_vars
Disjoint == \A s, t \in Slots : \A j \in 1 .. Len(own[s]), k \in 1 .. Len(own[t]) :
              (s # t \/ j # k) => own[s][j] \cap own[t][k] = {}
Kept == \A s \in Slots : \A j \in 1 .. Len(own[s]) : \A c \in own[s][j] :
          heap[c] \in {s} \cup (IF kind[s] \in {"c1", "c2"} THEN {"zero"} ELSE {"zero", "dirty"} \cup Slots)
(* a written block keeps its content until it is written or released again *)
Intact == [][\A s \in Slots : own[s] # <<>> /\ own'[s] = own[s] =>
               \A j \in 1 .. Len(own[s]) : \A c \in own[s][j] : heap'[c] # heap[c] => heap'[c] = s]_vars
Emit == Len(hist) = L => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
