---------------------------- MODULE TraceCalls ----------------------------
(* Solver calls with the caller's own operators, recorded from the library.
   Cb events are recorded inside the operators; n, m, p, q describe the operator
   set (for CG: n = m = the dimension; line search: m variables). *)
EXTENDS TraceBase, FiniteSets
VARIABLES stack, solo
tv == <<l, stack, solo>>
TraceInit == l = 1 /\ stack = [t \in 0 .. 7 |-> <<>>] /\ solo = [c \in 0 .. 15 |-> [x |-> "", st |-> 0]]
OnStack(t, c) == \E j \in 1 .. Len(stack[t]) : stack[t][j].c = c
Active(c) == \E t \in 0 .. 7 : OnStack(t, c)
Top(t) == stack[t][Len(stack[t])]
XfOps == {"Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty"}
Given(s) == CASE s \in {"cg", "pcg"} -> {"A"} [] s \in {"ls1", "ls2"} -> {"F"} [] s \in {"l1qc", "nesta"} -> XfOps [] OTHER -> {}
InLen(r, o) == CASE o \in {"A", "F"} -> r.m [] o \in {"Aty", "Rty"} -> r.n [] o = "Wz" -> r.p [] o \in {"Rx", "Mty"} -> r.q [] OTHER -> r.m
OutLen(r, o) == CASE o = "A" -> r.m [] o = "F" -> 0 [] o \in {"Ax", "Rx"} -> r.n [] o = "Wtx" -> r.p [] o \in {"Mx", "Rty"} -> r.q [] OTHER -> r.m
\* room: -1 if the vector is not one the monitor or the driver knows, -2 if it was released
RoomOk(room, len) == room = -1 \/ room >= 8 * len

CaseEv == IsEvent("Case") /\ stack' = [t \in 0 .. 7 |-> <<>>] /\ solo' = solo
SoloEv == IsEvent("Solo") /\ solo' = [solo EXCEPT ![Ev.c] = [x |-> Ev.x, st |-> Ev.st]] /\ UNCHANGED stack
Enter == /\ IsEvent("Enter")
         /\ Chk("call active twice", ~Active(Ev.c))
         /\ stack' = [stack EXCEPT ![Ev.thr] = Append(@, [c |-> Ev.c, s |-> Ev.s, n |-> Ev.n, m |-> Ev.m, p |-> Ev.p, q |-> Ev.q])]
         /\ UNCHANGED solo
CbEv == /\ IsEvent("Cb")
        /\ Chk("operator called while no call of this thread is active", stack[Ev.thr] # <<>>)
        /\ LET r == Top(Ev.thr) IN
           /\ Chk("operator of another call, or called from another thread", r.c = Ev.c)
           /\ Chk("operator that the solver has no business with", Ev.op \in Given(r.s))
           /\ Chk("input vector too short or released", RoomOk(Ev.rin, InLen(r, Ev.op)))
           /\ Chk("output vector too short or released", RoomOk(Ev.rout, OutLen(r, Ev.op)))
           /\ Chk("input and output vectors overlap", Ev.overlap = 0)
           /\ Chk("null vector", Ev.null = 0)
           /\ Chk("uninitialised memory as operator input", Ev.uninit = 0)
           /\ Chk("dimension passed to the operator", Ev.nok = 1)
           /\ Chk("data pointer passed to the operator", Ev.dataok = 1)
        /\ UNCHANGED <<stack, solo>>
Leave == /\ IsEvent("Leave")
         /\ Chk("returned while not active", stack[Ev.thr] # <<>> /\ Top(Ev.thr).c = Ev.c)
         /\ Chk("wrote outside its vectors", Ev.guard = 1)
         /\ Chk("a call that cannot be served reported success", Ev.ref = 0 \/ Ev.st # 0)
         /\ Chk("read-only arguments changed", Ev.same = 1)
         /\ Chk("the caller's operator set changed", Ev.axsame = 1)
         /\ Chk("status differs from the call on its own", Ev.cmp = 0 \/ Ev.st = solo[Ev.c].st)
         /\ ChkV("result differs from the call on its own", Ev.x, solo[Ev.c].x,
                 Ev.cmp = 0 \/ RvClose(Ev.x, solo[Ev.c].x, RvMul("1e-8", RvAdd("1e-12", RvNrmInf(solo[Ev.c].x))), "1e-7"))
         /\ stack' = [stack EXCEPT ![Ev.thr] = SubSeq(@, 1, Len(@) - 1)]
         /\ UNCHANGED solo
TraceNext == CaseEv \/ SoloEv \/ Enter \/ CbEv \/ Leave
TraceSpec == TraceInit /\ [][TraceNext]_tv
===========================================================================
