----------------------------- MODULE ProgressMC -----------------------------
(* The tracker as it is built (a history cut back to the window when it      *)
(* exceeds twice the window) against the specification.                      *)
EXTENDS Progress, TLC
CONSTANTS Dists, Dts, W, Steps
VARIABLES p, h, k
vars == <<p, h, k>>
Init == p = NewP(W) /\ h = <<>> /\ k = 0
Cut(q) == IF Len(q) > 2 * W THEN SubSeq(q, Len(q) - W + 1, Len(q)) ELSE q
Rec(d, dt) == /\ k < Steps /\ k' = k + 1 /\ p' = Sample(p, d, dt)
              /\ h' = Cut(Append(h, [d |-> d, v |-> IF h = <<>> THEN 1 ELSE Pace(h[Len(h)].d, d, dt)]))
Res == k < Steps /\ k' = k + 1 /\ p' = Forget(p) /\ h' = <<>>
Next == (\E d \in Dists, dt \in Dts : Rec(d, dt)) \/ Res
Spec == Init /\ [][Next]_vars
WindowKept == /\ [x \in 1..Len(Last(h, W)) |-> Last(h, W)[x].d] = Last(p.d, W)
              /\ [x \in 1..Len(Last(h, W)) |-> Last(h, W)[x].v] = Last(p.v, W)
Bounded == Len(h) <= 2 * W
\* the answers exclude each other where they should
Sane == /\ p.stuck # {} /\ (PN(p) < 3 => Converging(p) = {FALSE} /\ StuckSet(p) = {FALSE} /\ SwitchSet(p) = {FALSE})
        /\ (StuckSet(p) = {TRUE} => Converging(p) # {TRUE})
Improving(q) == \A x \in 1..(Len(q) - 1) : q[x] - q[x + 1] > Thr + 2 * Tol
SteadyConverges == Trendy(Last(p.d, W)) /\ Improving(Last(p.d, W)) => Converging(p) = {TRUE}
RisingDoesNot == Trendy(Last(p.d, W)) /\ (\A x \in 1..(Len(Last(p.d, W)) - 1) : Last(p.d, W)[x] <= Last(p.d, W)[x + 1])
                  => Converging(p) = {FALSE}
=============================================================================
