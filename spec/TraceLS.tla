----------------------------- MODULE TraceLS -----------------------------
(* A recorded line search: Search (arguments), one Trial per objective call,
   Done.  k counts trials, step is the step the next trial must use. *)
EXTENDS TraceBase
VARIABLES a, k, step, acc
tvars == <<l, a, k, step, acc>>
TraceInit == l = 1 /\ a = [dummy |-> 0] /\ k = 0 /\ step = "0" /\ acc = 0
Point(x, dx, s) == RvAdd(x, RvMul(s, dx))
Near(got, want, x, s, dx) == RvClose(got, want, RvAdd("1e-300", RvMul("1e-13", RvAdd(RvNrmInf(x), RvNrmInf(RvMul(s, dx))))), "0")
Search == /\ IsEvent("Search") /\ a' = Ev /\ k' = 0 /\ step' = Ev.s /\ acc' = 0
TrialEv == /\ IsEvent("Trial")
           /\ Chk("trial after acceptance or beyond 32 trials", acc = 0 /\ k < 32)
           /\ ChkV("trial point", Ev.xp, Point(a.x, a.dx, step), Near(Ev.xp, Point(a.x, a.dx, step), a.x, step, a.dx))
           /\ a.two = 1 => ChkV("trial point (u)", Ev.up, Point(a.u, a.du, step), Near(Ev.up, Point(a.u, a.du, step), a.u, step, a.du))
           /\ Chk("arguments changed before acceptance", Ev.argsame = 1)
           /\ LET flin == RvAdd(a.f0, RvMul(RvMul(a.alpha, step), a.slope))
                  ok == ~RvHasNaN(Ev.f) /\ RvLe(Ev.f, flin) IN
              /\ acc' = IF ok THEN 1 ELSE 0
              /\ step' = IF ok THEN step ELSE RvMul(a.beta, step)
           /\ k' = k + 1 /\ a' = a
\* f of the trial just recorded
LastF == Trace[l - 1].f
Done == /\ IsEvent("Done")
        /\ Chk("gave up early, or went on after acceptance", acc = 1 \/ k = 32)
        /\ Chk("status", Ev.status = 1 - acc)
        /\ Chk("trial count", Ev.iter = k)
        /\ Chk("directions changed", Ev.dsame = 1)
        /\ Chk("wrote outside its vectors", Ev.guard = 1)
        /\ IF acc = 1
           THEN /\ ChkV("step", Ev.step, step, RvClose(Ev.step, step, "0", "1e-13"))
                /\ ChkV("flin", Ev.flin, RvAdd(a.f0, RvMul(RvMul(a.alpha, step), a.slope)),
                        RvClose(Ev.flin, RvAdd(a.f0, RvMul(RvMul(a.alpha, step), a.slope)), RvMul("1e-12", RvAdd(RvAbs(a.f0), RvAbs(RvMul(step, a.slope)))), "1e-12"))
                /\ Chk("new point is the accepted trial point", RvEq(Ev.x, Trace[l - 1].xp) /\ (a.two = 1 => RvEq(Ev.u, Trace[l - 1].up)))
                /\ Chk("stored objective value", RvSame(Ev.f, LastF))
           ELSE /\ Chk("failed search moved the point", RvSame(Ev.x, a.x) /\ (a.two = 1 => RvSame(Ev.u, a.u)))
                \* an objective function that writes to the stored value itself decides what is left there
                /\ Chk("failed search changed the stored objective value", a.clobber = 1 \/ RvSame(Ev.f, a.f0))
        /\ UNCHANGED <<a, k, step, acc>>
TraceNext == (IsEvent("Case") /\ UNCHANGED <<a, k, step, acc>>) \/ Search \/ TrialEv \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===========================================================================
