------------------------------ MODULE LogModel ------------------------------
(* The replaceable print function.  cur: installed sink; out[s]: messages that
   reached sink s, each tagged with the call that produced it; at[c]: the sink
   that was installed while call c ran.  A call emits some messages one by one;
   another replacement can only happen between calls.  Explored exhaustively for
   all histories of L operations; each complete history is printed and replayed
   against the real library (d_log.py). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sinks, Default, Ops, Verb, L
VARIABLES cur, prevs, out, at, hist
vars == <<cur, prevs, out, at, hist>>
Init == cur = Default /\ prevs = <<>> /\ out = [s \in Sinks |-> {}] /\ at = <<>> /\ hist = <<>>
Msgs(v) == IF v = 0 THEN {0} ELSE {1, 2}
Replace(k) == /\ prevs' = Append(prevs, <<cur, k>>) /\ cur' = k /\ at' = Append(at, "none")
              /\ hist' = Append(hist, <<"replace", k, 0>>) /\ UNCHANGED out
Run(o, v) == /\ \E n \in Msgs(v) : out' = [out EXCEPT ![cur] = @ \cup {<<Len(hist) + 1, j>> : j \in 1 .. n}]
             /\ at' = Append(at, cur) /\ hist' = Append(hist, <<o, cur, v>>) /\ UNCHANGED <<cur, prevs>>
Next == Len(hist) < L /\ ((\E k \in Sinks : Replace(k)) \/ (\E o \in Ops, v \in Verb : Run(o, v)))
Spec == Init /\ [][Next]_vars
(* every message sits in the sink installed during its call and nowhere else *)
Routed == \A s \in Sinks : \A m \in out[s] : at[m[1]] = s
(* replacements form a chain: each returns what the one before installed *)
Chain == \A j \in 1 .. Len(prevs) : prevs[j][1] = IF j = 1 THEN Default ELSE prevs[j-1][2]
Quiet == \A s \in Sinks : \A m \in out[s] : hist[m[1]][3] # 0
============================================================================
