------------------------------ MODULE TraceLog ------------------------------
(* Recorded use of the logging layer.  cur: sink the specification says is
   installed (0..3 the driver's sinks, 4 = printf, i.e. standard output).
   ref: reference runs, recorded with full verbosity: problem -> result, reported
   iteration numbers. *)
EXTENDS TraceBase, FiniteSets
VARIABLES cur, ref
tvars == <<l, cur, ref>>
TraceInit == l = 1 /\ cur = 4 /\ ref = <<>>
(* bytes that arrived at each of the sinks 0..4 during the call (4: stdout) *)
OnlyCur == \A s \in 0 .. 4 : s # cur => Ev.d[s + 1] = 0
Quiet == \A s \in 0 .. 4 : Ev.d[s + 1] = 0
CaseEv == IsEvent("Case") /\ cur' = Ev.cur /\ ref' = <<>>
ReplaceEv == /\ IsEvent("Replace")
             /\ Chk("replace does not return the previous sink", Ev.ret = cur)
             /\ Chk("the new sink is not installed", Ev.now = Ev.k)
             /\ cur' = Ev.k /\ ref' = ref
SayEv == /\ IsEvent("Say") /\ Chk("message did not go to the installed sink only", OnlyCur /\ Ev.d[cur + 1] = Ev.len)
         /\ UNCHANGED <<cur, ref>>
Multiples(seq, v) == SelectSeq(seq, LAMBDA k : k % v = 0)
(* number of runs v, 2v, 3v, ... that make up seq; -1 if it is not made of them *)
Runs(seq, v) == IF \A j \in DOMAIN seq : seq[j] = v \/ (j > 1 /\ seq[j] = seq[j - 1] + v)
                THEN Cardinality({j \in DOMAIN seq : seq[j] = v}) ELSE -1
Upto(k) == [j \in 1 .. k |-> j]
Idx == IF \E j \in 1 .. Len(ref) : ref[j].ep = Ev.ep THEN CHOOSE j \in 1 .. Len(ref) : ref[j].ep = Ev.ep ELSE 0
R == ref[Idx]
(* Two runs of l1qc need not agree in the last bits (FFTW may choose another
   plan, OpenMP another summation order), so that the number of CG iterations
   may differ: its reports are held against the totals of the same run.
   ep: what is solved; v, cgv: verbosities; it, lb, nt, ct: reported CG iterations,
   barrier iterations, Newton iterations, continuation steps; inner: iterations
   reported by nesta; iter: iterations the call says it made; lbn: barrier
   iterations asked for; warn, other: lines of warnings and of any other kind *)
Monotone(b) == \A j \in 2 .. RvLen(b) : RvLe(RvAt(b, j), RvAt(b, j - 1))
Report == CASE Ev.solver = "cg" ->
                 /\ Chk("cg must report exactly the iterations divisible by its verbosity",
                        Ev.it = IF Ev.v = 0 THEN <<>> ELSE Multiples(Upto(Ev.iter), Ev.v))
                 /\ Chk("reported best residual must not increase", Monotone(Ev.best))
                 /\ Chk("cg prints something else", Ev.v > 0 \/ Quiet)
                 /\ Chk("last reported best residual differs from the result", RvLen(Ev.best) = 0 \/ Ev.v # 1 \/ RvClose(RvAt(Ev.best, RvLen(Ev.best)), Ev.resid, "1e-300", "1e-12"))
            [] Ev.solver = "l1qc" ->
                 /\ Chk("one report per barrier iteration", Ev.lb = IF Ev.v = 0 THEN <<>> ELSE Upto(Ev.lbn))
                 /\ Chk("Newton reports only above verbosity 1", Ev.v > 1 \/ Ev.nt = <<>>)
                 /\ Chk("Newton reports are not numbered 1, 2, ... in each barrier iteration", Ev.v < 2 \/ Runs(Ev.nt, 1) \in (IF Ev.warn = 0 THEN Ev.lbn ELSE 0) .. Ev.lbn)
                 /\ Chk("one report per Newton iteration", Ev.v < 2 \/ (Len(Ev.nt) <= Ev.niter /\ Len(Ev.nt) >= Ev.niter - Ev.lbn))
                 /\ Chk("cg reports within l1qc obey cg_verbose", IF Ev.cgv = 0 THEN Ev.it = <<>> ELSE Runs(Ev.it, Ev.cgv) >= 0)
                 /\ Chk("number of cg reports", Ev.cgv = 0 \/ (/\ Ev.cgv * Len(Ev.it) <= Ev.iter
                                                             /\ Ev.iter - (Ev.cgv - 1) * (Ev.niter + Ev.lbn) <= Ev.cgv * Len(Ev.it)))
                 /\ Chk("with cg_verbose 1 every cg iteration is reported", Ev.cgv # 1 \/ Len(Ev.it) = Ev.iter)
                 /\ Chk("totals of the last report differ from the result", Ev.v = 0 \/ Ev.tot = <<Ev.niter, Ev.iter>>)
                 /\ Chk("verbosity 0 prints nothing but warnings", Ev.v > 0 \/ Ev.cgv > 0 \/ Ev.other = 0)
                 /\ Chk("warnings differ between runs", Idx = 0 \/ (Ev.warn > 0) = (R.warn > 0))
            [] Ev.solver = "nesta" ->
                 /\ Chk("one report per continuation step", Ev.ct = IF Ev.v = 0 THEN <<>> ELSE Upto(Ev.lbn))
                 /\ Chk("nesta must report the iterations divisible by its verbosity", IF Ev.v = 0 THEN Ev.inner = <<>> ELSE Idx = 0 \/ Ev.inner = Multiples(R.inner, Ev.v))
                 /\ Chk("verbosity 0 prints nothing", Ev.v > 0 \/ Quiet)
            [] Ev.solver = "breg" -> Chk("the denoiser prints nothing", Quiet)
            [] Ev.solver = "ls" -> /\ Chk("a successful line search prints nothing", Ev.fails = 1 \/ Quiet)
                                   /\ Chk("a failed line search warns", Ev.fails = 0 \/ Ev.warn > 0)
SolveEv == /\ IsEvent("Solve")
           /\ Chk("call failed", Ev.st = 0)
           /\ Chk("output bypasses the installed sink", OnlyCur)
           /\ Chk("output on standard error", Ev.err = 0)
           /\ Chk("the call changed the sink", Ev.now = cur)
           /\ Report
           /\ IF Idx = 0 THEN ref' = Append(ref, Ev)
              ELSE /\ ChkV("verbosity or sink changes the result", Ev.x, R.x, RvClose(Ev.x, R.x, "1e-300", IF Ev.solver = "l1qc" THEN "1e-5" ELSE "1e-9"))
                   /\ Chk("verbosity or sink changes the iteration count", Ev.solver = "l1qc" \/ (Ev.iter = R.iter /\ Ev.niter = R.niter))
                   /\ ref' = ref
           /\ cur' = cur
TraceNext == CaseEv \/ ReplaceEv \/ SayEv \/ SolveEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
