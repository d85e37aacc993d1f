------------------------------- MODULE Calls -------------------------------
(* Calls of the solvers, the operators a caller hands to them, and the ways in
   which calls can overlap.  A thread has a stack of active calls: a call made
   inside an operator callback of another one is nested in it; calls of
   different threads interleave.

   Call c makes Pauses[c] callbacks that matter here; between two of them it
   updates its private state (acc).  Work memory: cell loc(c).  The library
   gives every call cells of its own (Static = FALSE); with Static = TRUE two
   calls of the same kind share one, which is what a static scratch buffer
   does: the model shows that Isolated then fails, so the histories replayed
   against the library do distinguish the two designs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, NC, Pauses, Static, MaxDepth
VARIABLES stack,   \* thread -> sequence of calls, the last one is active
          pos,     \* call -> pauses passed, -1 before start, -2 after return
          mem, res, hist
vars == <<stack, pos, mem, res, hist>>
Calls == 1 .. NC
PausesQ == [c \in Calls |-> IF c = 2 THEN 1 ELSE 2]
PausesA == [c \in Calls |-> IF c = 3 THEN 0 ELSE 2]     \* the last call makes no callbacks
PausesT == [c \in Calls |-> IF c = 1 THEN 3 ELSE 2]
Loc(c) == IF Static THEN 1 ELSE c
Idx(c) == c
\* the value a call ends with when it runs alone
RECURSIVE SoloVal(_, _)
SoloVal(c, k) == IF k < 0 THEN 0 ELSE SoloVal(c, k - 1) * 3 + Idx(c)
Init == /\ stack = [t \in Threads |-> <<>>] /\ pos = [c \in Calls |-> -1] /\ mem = [c \in Calls |-> 0]
        /\ res = [c \in Calls |-> -1] /\ hist = <<>>
Started == {c \in Calls : pos[c] # -1}
Top(t) == stack[t][Len(stack[t])]
\* run the active call of thread t up to its next pause or its return
Advance(t, c, st, m0) ==
  LET m == [m0 EXCEPT ![Loc(c)] = @ * 3 + Idx(c)]
      k == IF pos[c] = -1 THEN 0 ELSE pos[c] + 1 IN
  /\ mem' = m
  /\ IF k = Pauses[c] THEN /\ res' = [res EXCEPT ![c] = m[Loc(c)]] /\ pos' = [pos EXCEPT ![c] = -2]
                          /\ stack' = [stack EXCEPT ![t] = SubSeq(st, 1, Len(st) - 1)]
     ELSE res' = res /\ pos' = [pos EXCEPT ![c] = k] /\ stack' = [stack EXCEPT ![t] = st]
Start(t, c) == /\ pos[c] = -1 /\ (\A b \in Calls : b < c => pos[b] # -1) /\ Len(stack[t]) < MaxDepth
               /\ (c = 1 => t = CHOOSE u \in Threads : \A v \in Threads : u <= v)
               /\ Advance(t, c, Append(stack[t], c), [mem EXCEPT ![Loc(c)] = 0])
               /\ hist' = Append(hist, <<t, "start", c>>)
Go(t) == /\ stack[t] # <<>>
         /\ Advance(t, Top(t), stack[t], mem)
         /\ hist' = Append(hist, <<t, "go", Top(t)>>)
Next == \E t \in Threads : Go(t) \/ \E c \in Calls : Start(t, c)
Spec == Init /\ [][Next]_vars
Done == \A c \in Calls : pos[c] = -2
(* every call ends with the value it has on its own *)
Isolated == \A c \in Calls : pos[c] = -2 => res[c] = SoloVal(c, Pauses[c])
(* a thread never has one call twice, and callers stay suspended while callees run *)
Stacked == \A t \in Threads : \A j, k \in 1 .. Len(stack[t]) : j # k => stack[t][j] # stack[t][k]
Emit == Done => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
