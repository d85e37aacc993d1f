------------------------------ MODULE TraceMem ------------------------------
(* Recorded histories of the allocation helpers.  owned[s]: resources the
   monitor saw the library acquire for slot s (0 without monitor). *)
EXTENDS TraceBase
VARIABLES live, owned
tvars == <<l, live, owned>>
TraceInit == l = 1 /\ live = {} /\ owned = <<>>
Healthy == /\ Chk("another live block was disturbed", Ev.intact = 1)
           /\ Chk("wrote outside an allocation", Ev.damaged = 0)
           /\ Chk("released twice", Ev.dfree = 0)
Own(s) == IF \E k \in 1 .. Len(owned) : owned[k][1] = s THEN (CHOOSE k \in 1 .. Len(owned) : owned[k][1] = s) ELSE 0
AllocEv == /\ IsEvent("Alloc") /\ Healthy
           /\ Chk("driver: slot in use", Ev.s \notin live)
           /\ IF Ev.failed > 0
              THEN /\ Chk("failed request not reported as NULL", Ev.null = 1)
                   /\ Chk("failed allocation keeps memory", Ev.after = Ev.before)
                   /\ live' = live /\ owned' = owned
              ELSE /\ Chk("allocation refused", Ev.null = 0)
                   /\ Chk("not aligned to DALIGN", Ev.aligned = 1)
                   /\ Chk("not zeroed", Ev.zero = 1 \/ Ev.kd \notin {"c1", "c2"})
                   /\ Chk("full length is not readable and writable", Ev.usable = 1)
                   /\ Chk("library acquired nothing", Ev.mon = 0 \/ Ev.after > Ev.before)
                   /\ live' = live \cup {Ev.s}
                   /\ owned' = Append(SelectSeq(owned, LAMBDA o : o[1] # Ev.s), <<Ev.s, Ev.after - Ev.before>>)
WriteEv == IsEvent("Write") /\ Healthy /\ UNCHANGED <<live, owned>>
FreeEv == /\ IsEvent("Free") /\ Healthy
          /\ Chk("driver: slot not in use", Ev.s \in live)
          /\ Chk("did not release exactly what it acquired", Ev.mon = 0 \/ Ev.before - Ev.after = owned[Own(Ev.s)][2])
          /\ live' = live \ {Ev.s} /\ owned' = owned
NullEv == IsEvent("FreeNull") /\ Healthy /\ Chk("releasing NULL released something", Ev.before = Ev.after) /\ UNCHANGED <<live, owned>>
EndEv == IsEvent("End") /\ Chk("memory left over", Ev.mon = 0 \/ Ev.after = 0) /\ UNCHANGED <<live, owned>>
CaseEv == IsEvent("Case") /\ live' = {} /\ owned' = <<>>
TraceNext == CaseEv \/ AllocEv \/ WriteEv \/ FreeEv \/ NullEv \/ EndEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
