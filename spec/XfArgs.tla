------------------------------ MODULE XfArgs ------------------------------
(* Enumerates the argument space of the two validating set-up functions as
   boundary classes; every combination is one initial state.  faults counts
   the documented reasons for refusal. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE a
B(x) == IF x THEN 1 ELSE 0
Dims == {-1, 0, 1, 2, 3, 4}
NKind == {"neg", "zero", "one", "two", "tot"}
IKind == {"ok", "last", "negfirst", "neglast", "overfirst", "overlast", "far"}
Huge == {<<65537, 65537>>, <<65536, 65536>>, <<46341, 46341>>, <<1073741824, 4>>, <<715827883, 6>>, <<3, 1431655766>>}
Wt == {-1, 0, 1}
Faults(x) == B(x.r <= 0) + B(x.c <= 0) + B(x.n \in {"neg", "zero"})
             + B(x.i \notin {"ok", "last"})
             + B(IF x.r > 0 /\ x.c > 0 THEN x.r > 2147483647 \div x.c ELSE FALSE)
             + B(x.av < 0) + B(x.ah < 0)
             + B((x.av > 0 \/ x.ah > 0) /\ (x.r \in {1, 2} \/ x.c \in {1, 2}))
Rec(api, n, r, c, i, av, ah, m, b) == [api |-> api, n |-> n, r |-> r, c |-> c, i |-> i, av |-> av, ah |-> ah, mode |-> m, bp |-> b]
Init == \/ \E n \in NKind, r \in Dims, c \in Dims, i \in IKind, m \in {1, 2} :
             a = Rec("dct", n, r, c, i, 0, 0, m, 1)
        \/ \E n \in NKind, r \in Dims, c \in Dims, i \in IKind, av \in Wt, ah \in Wt, m \in {1, 2}, b \in {1, 2} :
             a = Rec("dcttv", n, r, c, i, av, ah, m, b)
        \* images whose pixels cannot be counted
        \/ \E api \in {"dct", "dcttv"}, d \in Huge, n \in {"one", "two"}, i \in {"ok", "neglast"}, av \in {0, 1}, ah \in {0, 1}, m \in {1, 2}, b \in {1, 2} :
             IF api = "dct" /\ (av + ah > 0 \/ b = 2) THEN FALSE ELSE a = Rec(api, n, d[1], d[2], i, av, ah, m, b)
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
Emit == PrintT(<<"BEH", ToJson([a EXCEPT !.api = a.api] @@ [faults |-> Faults(a)])>>)
===========================================================================
