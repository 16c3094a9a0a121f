----------------------------- MODULE MonitorMC ------------------------------
(* The monitor as it is built (a converged-since mark and running extremes,  *)
(* updated incrementally) against the specification, for every history.      *)
EXTENDS Monitor, TLC
CONSTANTS Vals, Thr, Horizon, Steps
VARIABLES m, t, mark, mx, mn, k
vars == <<m, t, mark, mx, mn, k>>
Init == m = NewMonitor(Thr, 0) /\ t = 0 /\ mark = -1 /\ mx = 0 /\ mn = One /\ k = 0
Rec(v) == /\ k < Steps /\ k' = k + 1 /\ m' = Record(m, v, t) /\ UNCHANGED t
          /\ mx' = Max2(mx, v) /\ mn' = Min2(mn, v)
          /\ mark' = IF v >= Thr /\ mark = -1 THEN t ELSE IF v < Thr THEN -1 ELSE mark
Res == /\ k < Steps /\ k' = k + 1 /\ m' = Reset(m, t) /\ mark' = -1 /\ mx' = 0 /\ mn' = One /\ UNCHANGED t
Pass == t < Horizon /\ t' = t + 1 /\ UNCHANGED <<m, mark, mx, mn, k>>
Next == (\E v \in Vals : Rec(v)) \/ Res \/ Pass
Spec == Init /\ [][Next]_vars
Refines == /\ Converged(m) <=> mark # -1
           /\ ConvTime(m) = IF mark = -1 THEN 0 ELSE mark - m.start
           /\ N(m) > 0 => mx = MaxSeq(m.h) /\ mn = MinSeq(m.h)
Sane == ConvTime(m) >= 0 /\ (Converged(m) <=> Current(m) >= Thr /\ N(m) > 0)
=============================================================================
