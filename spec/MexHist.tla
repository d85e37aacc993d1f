------------------------------ MODULE MexHist ------------------------------
(* Argument classes of the mex functions, each followed by a plain valid call. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
VARIABLES hist
Sampled == {"few", "scalar-type", "data-type", "data-sparse", "data-complex", "index-type", "index-sparse", "data-2d", "index-2d", "data-3d", "data-empty", "length", "too-long",
            "index-zero", "index-neg", "index-over", "index-over-mid", "index-nan", "index-huge", "dim0", "dims-neg", "dims-wrap", "not-struct", "struct-array", "missing-field", "field-type"}
FaultsOf(f) == CASE f = "l1qc" -> Sampled \cup {"infeasible"}
                 [] f = "nesta" -> Sampled \cup {"bp-bad", "bp-type", "weight-neg", "tv-thin"}
                 [] f = "breg" -> {"few", "scalar-type", "data-type", "data-sparse", "data-complex", "thin-r", "thin-c", "data-3d", "data-empty", "data-scalar"}
Fns == {"l1qc", "nesta", "breg"}
Orient == {"row", "column"}
Opts == {"struct", "shuffled", "extra", "builder"}
Good == {[fn |-> f, fault |-> "none", ob |-> x, oi |-> y, opts |-> s, nout |-> n] : f \in {"l1qc", "nesta"}, x \in Orient, y \in Orient \cup {"range"}, s \in Opts, n \in {1, 2}}
        \cup {[fn |-> "breg", fault |-> "none", ob |-> x, oi |-> "row", opts |-> s, nout |-> 1] : x \in {"tall", "wide", "square"}, s \in Opts}
Bad == UNION {{[fn |-> f, fault |-> x, ob |-> y, oi |-> "column", opts |-> "struct", nout |-> n] : x \in FaultsOf(f), y \in Orient, n \in {1, 2}} : f \in Fns}
Probe == {[fn |-> f, fault |-> "none", ob |-> (IF f = "breg" THEN "tall" ELSE "column"), oi |-> "column", opts |-> "struct", nout |-> (IF f = "breg" THEN 1 ELSE 2)] : f \in Fns}
Classes == {q \in Good \cup Bad : (IF q.fn = "nesta" THEN q.nout = 2 ELSE TRUE)}
Init == \E a \in Classes : hist = <<a>>
Next == Len(hist) < L /\ \E p \in Probe : hist' = Append(hist, p)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = L => PrintT(<<"BEH", ToJson(hist)>>)
============================================================================
