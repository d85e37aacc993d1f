------------------------------ MODULE TracePy ------------------------------
(* Recorded calls of the Python functions.  Each event carries the description of
   the arguments (see PyVals), whether the call raised, what it returned, the
   results of the corresponding C calls on the same data (refs: unperturbed and
   perturbed by rounding-size noise, any of which the result may match), and what
   the monitors saw: references to the arguments gained, references to the result
   beyond the caller's, Python memory growth per repetition, heap blocks and FFTW
   plans owned before/after. inj = 1: an allocation was made to fail (hit: the
   failure was in the library or the module, so the call cannot succeed). *)
EXTENDS TraceBase, PyVals
VARIABLE seen
tvars == <<l, seen>>
TraceInit == l = 1 /\ seen = 0
Owns == /\ Chk("arguments modified", Ev.same = 1)
        /\ Chk("references to the arguments kept or dropped", Ev.rcin = 0)
        /\ Chk("result has references nobody owns", Ev.rcout = 0)
        /\ Chk("memory held by Python grows with every call", Ev.grow <= 0)
        /\ Chk("heap blocks still owned after the call", Ev.h1 = Ev.h0)
        /\ Chk("transforms kept alive", Ev.p1 = Ev.p0)
        /\ Chk("released something it does not own", Ev.dbl = 0)
        /\ Chk("wrote past the end of an allocation", Ev.dmg = 0)
        /\ Chk("failed without setting an exception, or returned a result with one set", Ev.nomem >= 0 \/ Ev.exc # "SystemError")
Matches(r) == /\ RvClose(Ev.out, r.out, Ev.atol, Ev.rtol) /\ RvClose(Ev.scal, r.scal, Ev.satol, Ev.rtol)
              /\ Ev.status = r.status /\ RvClose(Ev.cnt, r.cnt, "2", "0.1")      \* rounding can move an iteration count a little
              /\ (Ev.lines = 0) = (r.lines = 0) /\ Ev.lines - r.lines \in -(2 + r.lines \div 10) .. 2 + r.lines \div 10
Returned == /\ Chk("raised although the arguments are valid", Ev.raised = 0)
            /\ Chk("result has the wrong type or shape", Ev.form = 1 /\ Ev.shape = <<Ev.mrow, Ev.mcol>>)
            /\ IF Ev.vague = 1 \/ \E j \in 1 .. Len(Ev.refs) : Matches(Ev.refs[j]) THEN TRUE   \* vague: rounding decides the result
               ELSE PrintT(<<"REJECT", l, "result differs from that of the C call with the same data and options",
                             RvDiff(Ev.out, Ev.refs[1].out), Ev.cnt, Ev.refs[1].cnt, Ev.lines, Ev.refs[1].lines>>) /\ FALSE
PyEv == /\ IsEvent("Py") /\ Owns /\ seen' = seen + 1
        /\ LET o == Outcome(Ev) IN
           IF o = "raise" THEN Chk("returned data for arguments that must be refused", Ev.raised = 1)
           ELSE IF o = "any" THEN TRUE
           ELSE IF Ev.inj = 1 THEN (IF Ev.hit = 1 THEN Chk("returned data although an allocation failed", Ev.raised = 1)
                                    ELSE IF Ev.raised = 1 THEN TRUE ELSE Returned)
           ELSE Returned
CaseEv == IsEvent("Case") /\ seen' = seen
TraceNext == CaseEv \/ PyEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
