----------------------------- MODULE PyModel -----------------------------
(* Ownership protocol of a call from Python.  A call acquires, in the order of
   its kind, references to converted arrays, work vectors, a transform set and
   result objects; every acquisition, check or solver run may fail, after which
   the call releases what it owns and raises.  On success it releases all but the
   result, whose single reference goes to the caller.  The caller drops results
   at any time.  sets counts live transform sets: the library supports one. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxCalls
Kinds == {"l1qc", "nesta", "breg"}
Plan(k) == CASE k = "l1qc"  -> <<"refB", "refI", "check", "x", "set", "solve", "drop", "arr", "dict", "tuple">>
             [] k = "nesta" -> <<"refB", "refI", "check", "b", "set", "x", "solve", "img", "drop", "arr", "tuple">>
             [] k = "breg"  -> <<"refB", "check", "x", "b", "solve", "arr">>
NotOwned == {"check", "solve", "drop"}
VARIABLES kind, pos, owned, outcome, results, calls, sets
vars == <<kind, pos, owned, outcome, results, calls, sets>>
Init == kind = "none" /\ pos = 0 /\ owned = {} /\ outcome = "none" /\ results = 0 /\ calls = 0 /\ sets = 0
Begin(k) == kind = "none" /\ calls < MaxCalls /\ kind' = k /\ pos' = 1 /\ outcome' = "running" /\ calls' = calls + 1 /\ UNCHANGED <<owned, results, sets>>
Step == /\ outcome = "running" /\ pos <= Len(Plan(kind))
        /\ LET s == Plan(kind)[pos] IN
             \/ /\ owned' = (CASE s = "drop" -> owned \ {"set"}
                               [] s = "tuple" -> (owned \ {"arr", "dict"}) \cup {"tuple"}   \* the tuple takes over its members
                               [] s \in NotOwned \ {"drop"} -> owned
                               [] OTHER -> owned \cup {s})
                /\ sets' = (IF s = "set" THEN sets + 1 ELSE IF s = "drop" THEN sets - 1 ELSE sets)
                /\ pos' = pos + 1 /\ outcome' = outcome
             \/ s # "drop" /\ outcome' = "failed" /\ UNCHANGED <<owned, sets, pos>>
        /\ UNCHANGED <<kind, results, calls>>
Release == /\ outcome = "failed" \/ (outcome = "running" /\ pos > Len(Plan(kind)))
           /\ \E r \in owned : /\ (IF outcome = "failed" THEN TRUE ELSE r \notin {"arr", "tuple"} \/ (r = "arr" /\ "tuple" \in owned))
                               /\ owned' = owned \ {r} /\ sets' = (IF r = "set" THEN sets - 1 ELSE sets)
           /\ UNCHANGED <<kind, pos, outcome, results, calls>>
Return == /\ \/ outcome = "failed" /\ owned = {} /\ results' = results
             \/ outcome = "running" /\ pos > Len(Plan(kind)) /\ owned \in {{"arr"}, {"tuple"}} /\ results' = results + 1
          /\ kind' = "none" /\ outcome' = "none" /\ owned' = {} /\ pos' = 0 /\ UNCHANGED <<calls, sets>>
Drop == results > 0 /\ results' = results - 1 /\ UNCHANGED <<kind, pos, owned, outcome, calls, sets>>
Next == (\E k \in Kinds : Begin(k)) \/ Step \/ Release \/ Return \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Release \/ Return)
OneSet == sets <= 1
Idle == kind = "none" => owned = {} /\ sets = 0
SetOwned == (sets = 1) <=> ("set" \in owned)
Returns == [](kind # "none" => <>(kind = "none"))
==========================================================================
