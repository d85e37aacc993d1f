----------------------------- MODULE FaultModel -----------------------------
(* Resource protocol of the library.  Slots 1..NS are the file-scope pointers of
   a transform set (buffers, plans), slots NS+1..NS+NL the local work memory of
   a solver.  Three kinds of calls:
     setup    acquires the static slots one by one,
     solve    acquires a set internally (like l1qc_dct) or uses the live one,
              then its local memory, and releases all of it,
     destroy  releases the static slots of a live set.
   Every request may fail (any subset of the requests of a call).  A failing
   call must take the clean-up path: release exactly what this call acquired,
   never a stale pointer of an earlier set-up.  All histories of at most MaxCalls
   calls with every fault pattern are explored. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NS, NL, MaxCalls
Slots == 1 .. NS + NL
VARIABLES ptr,      \* slot -> resource id held in the pointer (0 = NULL); stale ids possible for statics
          heap,     \* set of live resource ids
          next, pc, cur, pos, failed, status, live, calls, double, base
vars == <<ptr, heap, next, pc, cur, pos, failed, status, live, calls, double, base>>
Init == /\ ptr = [s \in Slots |-> 0] /\ heap = {} /\ next = 1 /\ pc = "idle" /\ cur = "none" /\ pos = 0
        /\ failed = FALSE /\ status = 0 /\ live = FALSE /\ calls = 0 /\ double = FALSE /\ base = 0
First(c) == IF c = "setup" \/ (c = "solve1") THEN 1 ELSE NS + 1
Last(c)  == IF c = "setup" THEN NS ELSE NS + NL
Begin(c) == /\ pc = "idle" /\ calls < MaxCalls
            /\ (c \in {"setup", "solve1"} => ~live) /\ (c = "solve2" => live)
            /\ cur' = c /\ pc' = "acquire" /\ pos' = First(c) /\ failed' = FALSE /\ status' = 0 /\ calls' = calls + 1
            /\ base' = Cardinality(heap)
            (* locals start NULL; the statics are reset before anything is requested *)
            /\ ptr' = [s \in Slots |-> IF s > NS \/ c \in {"setup", "solve1"} THEN 0 ELSE ptr[s]]
            /\ UNCHANGED <<heap, next, live, double>>
(* the code requests a group of resources and tests them together, so later
   requests of the group still happen after a failure *)
Request == /\ pc = "acquire" /\ pos <= Last(cur)
           /\ \/ /\ ptr' = [ptr EXCEPT ![pos] = next] /\ heap' = heap \cup {next} /\ next' = next + 1 /\ failed' = failed
              \/ /\ ptr' = [ptr EXCEPT ![pos] = 0] /\ failed' = TRUE /\ UNCHANGED <<heap, next>>
           /\ pos' = pos + 1
           /\ UNCHANGED <<pc, cur, status, live, calls, double, base>>
(* or the code stops at the first failure it notices *)
GiveUp == /\ pc = "acquire" /\ failed
          /\ pc' = "cleanup" /\ status' = 1 /\ pos' = First(cur) /\ UNCHANGED <<ptr, heap, next, cur, failed, live, calls, double, base>>
Acquired == /\ pc = "acquire" /\ pos > Last(cur) /\ ~failed
            /\ IF cur = "setup" THEN pc' = "idle" /\ live' = TRUE /\ pos' = pos ELSE pc' = "cleanup" /\ live' = live /\ pos' = First(cur)
            /\ UNCHANGED <<ptr, heap, next, cur, failed, status, calls, double, base>>
ReleaseSlot(s) == IF ptr[s] = 0 THEN UNCHANGED <<heap, double>>
                  ELSE /\ double' = (double \/ ptr[s] \notin heap) /\ heap' = heap \ {ptr[s]}
Cleanup == /\ pc = "cleanup"
           /\ IF pos > Last(cur) THEN pc' = "idle" /\ UNCHANGED <<ptr, heap, next, cur, pos, failed, status, live, calls, double, base>>
              ELSE ReleaseSlot(pos) /\ pos' = pos + 1 /\ UNCHANGED <<pc, ptr, next, cur, failed, status, live, calls, base>>
Destroy == /\ pc = "idle" /\ live /\ calls < MaxCalls
           /\ heap' = heap \ {ptr[s] : s \in 1 .. NS} /\ double' = (double \/ \E s \in 1 .. NS : ptr[s] \notin heap)
           /\ live' = FALSE /\ cur' = "destroy" /\ calls' = calls + 1 /\ status' = 0 /\ failed' = FALSE
           /\ base' = 0 /\ UNCHANGED <<ptr, next, pc, pos>>
Next == (\E c \in {"setup", "solve1", "solve2"} : Begin(c)) \/ Request \/ GiveUp \/ Acquired \/ Cleanup \/ Destroy
Spec == Init /\ [][Next]_vars
NoDouble == ~double
Neutral == pc = "idle" => Cardinality(heap) = IF live THEN NS ELSE 0
Reported == pc = "idle" => (status # 0 <=> failed)
KeepsLive == pc = "idle" /\ cur = "solve2" => Cardinality(heap) = base
=============================================================================
