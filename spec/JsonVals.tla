------------------------------ MODULE JsonVals ------------------------------
(* What each extractor owes for each kind of field.  Verdict: "value" (status 0
   and exactly the stored value), "error" (non-zero status, arrays report length
   0), "free" (no claim: a fractional number read as an integer). *)
Extractors == {"int", "dbl", "iarr", "darr"}
Scalars == {"int", "frac"}
Fields == Scalars \cup {"ints", "fracs", "empty", "string", "bool", "null", "object", "mixed", "nested", "missing", "othercase"}
Verdict(x, f) ==
  CASE x = "int"  -> IF f = "int" THEN "value" ELSE IF f = "frac" THEN "free" ELSE "error"
    [] x = "dbl"  -> IF f \in Scalars THEN "value" ELSE "error"
    [] x = "iarr" -> IF f \in {"ints", "empty"} THEN "value" ELSE IF f = "fracs" THEN "free" ELSE "error"
    [] x = "darr" -> IF f \in {"ints", "fracs", "empty"} THEN "value" ELSE "error"
(* documents: what a file can hold *)
Docs == {"object", "rootarray", "rootnumber", "rootstring", "missing", "empty", "directory", "fifo", "blank", "prefix", "garbage"}
Loads(k) == k \in {"object", "rootarray", "rootnumber", "rootstring"}
Text(k) == Loads(k) \/ k \in {"blank", "prefix", "garbage"}
============================================================================
