------------------------------ MODULE TraceJson ------------------------------
(* Recorded use of the JSON loader.  h0/h1: heap blocks owned before/after (library
   and parser), f1: open files, nfail: requests or reads made to fail. *)
EXTENDS TraceBase, JsonVals
VARIABLES tree
tvars == <<l, tree>>
TraceInit == l = 1 /\ tree = "none"
Clean == /\ Chk("file handle left open", Ev.f1 = 0)
         /\ Chk("released twice or wrote past an allocation", Ev.bad = 0)
CaseEv == IsEvent("Case") /\ tree' = "none"
LoadEv == /\ IsEvent("Load") /\ Clean
          /\ IF Ev.kind = "fifo" /\ Ev.st = 0 THEN tree' = "object"    \* files without a length may be read or refused
             ELSE IF Loads(Ev.kind) /\ Ev.nfail = 0
             THEN /\ Chk("valid document refused", Ev.st = 0 /\ Ev.tree = 1) /\ tree' = Ev.kind
             ELSE /\ Chk("failure to load not reported", Ev.st # 0)
                  /\ Chk("failed load leaks", Ev.h1 = Ev.h0) /\ tree' = "none"
TextEv == /\ IsEvent("Text") /\ Clean
          /\ (IF Text(Ev.kind) /\ Ev.nfail = 0
              THEN Chk("text differs from the file", Ev.st = 0 /\ Ev.same = 1 /\ Ev.h1 = Ev.h0 + 1)
              ELSE Chk("failure to read not reported", Ev.st # 0) /\ Chk("failed read leaks", Ev.h1 = Ev.h0))
          /\ tree' = tree
LenEv == IsEvent("Len") /\ Chk("wrong file length", Ev.got = Ev.want) /\ tree' = tree
V == IF tree = "object" THEN Verdict(Ev.x, Ev.f) ELSE "error"
ExtractEv == /\ IsEvent("Extract") /\ Clean
             /\ IF Ev.nfail > 0 \/ V = "error"
                THEN /\ Chk("failed extraction reports success", Ev.st # 0)
                     /\ Chk("failed array extraction reports a length", Ev.x \notin {"iarr", "darr"} \/ Ev.N = 0)
                     /\ Chk("failed extraction leaks", Ev.h1 = Ev.h0)
                ELSE IF V = "free" THEN TRUE
                ELSE /\ Chk("extraction of an existing field fails", Ev.st = 0)
                     /\ Chk("wrong length", Ev.N = Ev.wantN)
                     /\ ChkV("wrong value", Ev.got, Ev.want, RvSame(Ev.got, Ev.want))
                     /\ Chk("extraction leaks", Ev.h1 - Ev.h0 <= IF Ev.x \in {"iarr", "darr"} THEN 1 ELSE 0)
             /\ tree' = tree
ReleaseEv == IsEvent("Release") /\ Clean /\ Chk("memory left after everything was released", Ev.h1 = 0) /\ tree' = "none"
TraceNext == CaseEv \/ LoadEv \/ TextEv \/ LenEv \/ ExtractEv \/ ReleaseEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
