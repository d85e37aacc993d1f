------------------------------ MODULE JsonModel ------------------------------
(* The loader as a resource protocol: open, measure, allocate, read, parse, each
   of which may fail; afterwards extractions, each of which may fail too.  The
   tree is owned by the caller exactly when loading reported success, file handle
   and text buffer never survive the call, and a failed extraction owns nothing. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT MaxX
Steps == <<"open", "measure", "alloc", "read", "parse">>
VARIABLES pc, file, buf, tree, arrays, st, bad, n
vars == <<pc, file, buf, tree, arrays, st, bad, n>>
Init == pc = "open" /\ file = 0 /\ buf = 0 /\ tree = 0 /\ arrays = 0 /\ st = -1 /\ bad = FALSE /\ n = 0
Fail == pc' = "ret" /\ st' = 1 /\ bad' = TRUE /\ file' = 0 /\ buf' = 0 /\ tree' = 0 /\ UNCHANGED <<arrays, n>>
Open == pc = "open" /\ (Fail \/ (pc' = "measure" /\ file' = 1 /\ UNCHANGED <<buf, tree, arrays, st, bad, n>>))
Measure == pc = "measure" /\ (Fail \/ (pc' = "alloc" /\ UNCHANGED <<file, buf, tree, arrays, st, bad, n>>))
Alloc == pc = "alloc" /\ (Fail \/ (pc' = "read" /\ buf' = 1 /\ UNCHANGED <<file, tree, arrays, st, bad, n>>))
Read == pc = "read" /\ (Fail \/ (pc' = "parse" /\ file' = 0 /\ UNCHANGED <<buf, tree, arrays, st, bad, n>>))
Parse == pc = "parse" /\ (Fail \/ (pc' = "ret" /\ buf' = 0 /\ tree' = 1 /\ st' = 0 /\ UNCHANGED <<file, arrays, bad, n>>))
Extract == /\ pc = "ret" /\ tree = 1 /\ n < MaxX /\ n' = n + 1
           /\ (arrays' = arrays + 1 \/ arrays' = arrays) /\ UNCHANGED <<pc, file, buf, tree, st, bad>>
Release == pc = "ret" /\ tree = 1 /\ tree' = 0 /\ arrays' = 0 /\ pc' = "done" /\ UNCHANGED <<file, buf, st, bad, n>>
Next == Open \/ Measure \/ Alloc \/ Read \/ Parse \/ Extract \/ Release
Spec == Init /\ [][Next]_vars
Neutral == pc \in {"ret", "done"} => file = 0 /\ buf = 0
Status == pc = "ret" => ((st = 0) = (tree = 1)) /\ ((st # 0) = bad)
Nothing == pc = "done" => tree = 0 /\ arrays = 0
==============================================================================
