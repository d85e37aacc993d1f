--------------------------- MODULE TraceBase ---------------------------
(* Common part of all trace specifications.  A trace is a sequence of events
   recorded from the real library (one JSON object per line; real numbers and
   real vectors are strings, see RealVec).  The position l advances by one per
   accepted event; an event that no action of the specification explains stops
   the trace, and Chk prints which clause it violates. *)
EXTENDS RealVec, Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Chk(name, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, name>>) /\ FALSE
ChkV(name, got, want, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, name, RvDiff(got, want)>>) /\ FALSE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
