------------------------------ MODULE TraceMex ------------------------------
(* Recorded calls of the mex functions in Octave: arguments (see MexVals), whether
   an error was raised, the returned matrices, and the results of the C calls for
   the same data (refs: any may match; for breg the two traversal orders of the
   image are equally good). hit = 1: an allocation of the library failed. *)
EXTENDS TraceBase, MexVals
VARIABLE seen
tvars == <<l, seen>>
TraceInit == l = 1 /\ seen = 0
Silent == Ev.raised = 0 /\ (IF Ev.nout >= 2 THEN Ev.status = 0 ELSE TRUE)
(* the binding prints its own header on top of the solver's lines *)
Matches(r) == /\ RvClose(Ev.out, r.out, Ev.atol, Ev.rtol)
              /\ (IF Ev.nout >= 2 THEN Ev.status = r.status /\ RvClose(Ev.scal, r.scal, Ev.satol, Ev.rtol) /\ RvClose(Ev.cnt, r.cnt, "2", "0.1") ELSE TRUE)
              /\ (IF Ev.quiet = 1 THEN Ev.lines <= r.lines + 2 ELSE Ev.lines >= r.lines - 2 - r.lines \div 10 /\ Ev.lines <= r.lines + 25 + r.lines \div 10)
Returned == /\ Chk("raised an error although the arguments are valid", Ev.raised = 0)
            /\ Chk("result is no full real double matrix of the right shape", Ev.dbl = 1 /\ Ev.nd = 2 /\ Ev.shape = Shape(Ev))
            /\ IF Ev.vague = 1 \/ \E j \in 1 .. Len(Ev.refs) : Matches(Ev.refs[j]) THEN TRUE   \* vague: rounding decides the result
               ELSE PrintT(<<"REJECT", l, "result differs from that of the C call with the same data and options",
                             RvDiff(Ev.out, Ev.refs[1].out), Ev.cnt, Ev.refs[1].cnt, Ev.lines, Ev.refs[1].lines>>) /\ FALSE
MexEv == /\ IsEvent("Mex") /\ seen' = seen + 1
         /\ Chk("caller's variables modified", Ev.same = 1)
         /\ Chk("memory left behind or released wrongly", Ev.h1 = Ev.h0 /\ Ev.p1 = Ev.p0 /\ Ev.rel = 0 /\ Ev.dmg = 0)
         /\ LET o == Outcome(Ev) IN
            IF o = "raise" THEN Chk("no error for arguments that must be refused", Ev.raised = 1)
            ELSE IF o = "report" \/ Ev.hit = 1 THEN Chk("failure not visible to the caller", ~Silent)
            ELSE Returned
CaseEv == IsEvent("Case") /\ seen' = seen
TraceNext == CaseEv \/ MexEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
