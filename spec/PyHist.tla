------------------------------ MODULE PyHist ------------------------------
(* Histories of Python calls: every pair of (function, argument class), so that
   each class also runs right after every other one.  The class names the single
   fault (or none), the layouts of the arrays and the calling style. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
VARIABLES hist
Lay == {"c", "fortran", "strided", "reversed", "float32", "int", "list", "readonly", "unaligned", "swapped"}
ILay == {"c", "strided", "reversed", "int16", "list", "readonly", "swapped", "uint8"}
Style == {"kw", "pos", "mix"}
Sampled == {"few", "many", "unknown", "scalar-type", "data-type", "data-complex", "index-type", "data-2d", "index-2d", "data-0d", "length", "too-long", "empty",
            "dct0", "dct3", "index-neg", "index-over", "index-over-mid", "dim0", "dims-neg", "dims-wrap", "twice"}
FaultsOf(f) == CASE f = "l1qc" -> Sampled \cup {"infeasible", "dct-neg"}
                 [] f = "nesta" -> Sampled \cup {"bp0", "bp3", "weight-neg", "tv-thin", "synth-tv", "index64"}
                 [] f = "breg" -> {"few", "many", "unknown", "scalar-type", "data-type", "data-complex", "data-1d", "data-3d", "thin-r", "thin-c"}
Fns == {"l1qc", "nesta", "breg"}
Good == {[fn |-> f, fault |-> "none", lay |-> y, ilay |-> z, style |-> s] : f \in Fns, y \in Lay, z \in ILay, s \in Style}
Bad == UNION {{[fn |-> f, fault |-> x, lay |-> y, ilay |-> "c", style |-> "kw"] : x \in FaultsOf(f), y \in {"c", "float32", "list"}} : f \in Fns}
Classes == Good \cup Bad
(* the first call is the one under test, what follows probes what it left behind *)
Probe == {[fn |-> f, fault |-> x, lay |-> "c", ilay |-> "c", style |-> "kw"] : f \in Fns, x \in {"none", "unknown"}}
Init == \E a \in Classes : hist = <<a>>
Next == Len(hist) < L /\ \E p \in Probe : hist' = Append(hist, p)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = L => PrintT(<<"BEH", ToJson(hist)>>)
===========================================================================
