----------------------------- MODULE TraceKern -----------------------------
EXTENDS TraceBase, Kernels
TraceInit == l = 1
MapEv == /\ IsEvent("Map")
         /\ Chk("read-only operand changed", Ev.same = 1) /\ Chk("wrote outside the N elements", Ev.guard = 1)
         /\ LET w == Map(Ev.op, Ev.len, Ev.a, Ev.b, Ev.x, Ev.y, Ev.z)
                sc == MapScale(Ev.op, Ev.a, Ev.b, Ev.x, Ev.y, Ev.z) IN
            ChkV("element map", Ev.out, w, IF Ev.len = 0 THEN Ev.out = "" ELSE Near(Ev.out, w, sc, "1e-14"))
RedEv == /\ IsEvent("Red")
         /\ Chk("operand changed", Ev.same = 1) /\ Chk("wrote outside its vectors", Ev.guard = 1)
         /\ LET w == IF Ev.len = 0 /\ Ev.op # "max" THEN "0" ELSE Red(Ev.op, Ev.len, Ev.a, Ev.x, Ev.y)
                sc == IF Ev.len = 0 THEN "0" ELSE RedScale(Ev.op, Ev.len, Ev.a, Ev.x, Ev.y) IN
            ChkV("reduction", Ev.out, w,
                 IF RvFinite(w) THEN RvFinite(Ev.out) /\ RvLe(RvAbs(RvSub(Ev.out, w)), RvAdd("1e-300", RvMul("1e-12", sc)))
                 ELSE RvEq(Ev.out, w))
TraceNext == IsEvent("Case") \/ MapEv \/ RedEv
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
