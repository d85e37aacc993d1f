------------------------------ MODULE TraceRes ------------------------------
(* Resource accounting of recorded calls.  Every event carries what the monitor
   saw: h0/h1 heap blocks, p0/p1 FFTW plans, f0/f1 open files owned by the
   library before and after the call, dbl releases of something not owned,
   dmg blocks written past their end, nfail requests that were made to fail.
   refs: result of the first undisturbed call of each kind, owned: what the live
   transform sets hold. *)
EXTENDS TraceBase
VARIABLES refs, owned
tvars == <<l, refs, owned>>
TraceInit == l = 1 /\ refs = <<>> /\ owned = <<>>
Find(seq, k) == IF \E j \in 1 .. Len(seq) : seq[j][1] = k THEN (CHOOSE j \in 1 .. Len(seq) : seq[j][1] = k) ELSE 0
Put(seq, k, v) == Append(SelectSeq(seq, LAMBDA o : o[1] # k), <<k, v>>)
Clean == /\ Chk("released something it does not own (double release)", Ev.dbl = 0)
         /\ Chk("wrote past the end of an allocation", Ev.dmg = 0)
         /\ Chk("caller's inputs changed", Ev.same = 1)
         /\ Chk("wrote outside the caller's vectors", Ev.guard = 1)
Now == <<Ev.h1, Ev.p1, Ev.f1>>
Before == <<Ev.h0, Ev.p0, Ev.f0>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Neutral == Chk("the library owns more or less than before the call", Now = Before)
Result == IF Ev.out = "" THEN refs' = refs
          ELSE LET j == Find(refs, Ev.ep) IN
               IF j = 0 THEN refs' = Put(refs, Ev.ep, Ev.out)
               ELSE /\ ChkV("result differs from that of an undisturbed call", Ev.out, refs[j][2], RvClose(Ev.out, refs[j][2], "1e-12", Ev.rtol))
                    /\ refs' = refs
CallEv == /\ IsEvent("Call") /\ Clean
          /\ IF Ev.nfail > 0 \/ Ev.valid = 0
             THEN /\ Chk("failure not reported", Ev.st # 0)
                  /\ Chk("status is not a documented error code", Ev.coded = 1)
                  /\ Neutral /\ refs' = refs /\ owned' = owned
             ELSE /\ Chk("undisturbed valid call fails", Ev.st = 0)
                  /\ Result
                  /\ (CASE Ev.kind = "solve" -> Neutral /\ owned' = owned
                        [] Ev.kind = "setup" -> owned' = Put(owned, Ev.slot, Sub(Now, Before))
                        [] Ev.kind = "destroy" ->
                             /\ Chk("destroy does not release exactly what the set-up acquired", Sub(Before, Now) = owned[Find(owned, Ev.slot)][2])
                             /\ owned' = owned)
CaseEv == IsEvent("Case") /\ UNCHANGED <<refs, owned>>
EndEv == IsEvent("End") /\ Chk("something is still owned at the end", Ev.h1 = 0 /\ Ev.p1 = 0 /\ Ev.f1 = 0) /\ UNCHANGED <<refs, owned>>
TraceNext == CaseEv \/ CallEv \/ EndEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
