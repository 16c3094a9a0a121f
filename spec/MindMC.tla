------------------------------- MODULE MindMC -------------------------------
(* All phase pairs on a small circle, all rates, and time: following a       *)
(* strategy never overshoots, comes closer, and pulses keep their period;    *)
(* choices are well defined.                                                 *)
EXTENDS Mind, TLC
CONSTANTS Period, Horizon
VARIABLES cur, tgt, rate, now, last, moves, prev
vars == <<cur, tgt, rate, now, last, moves, prev>>
\* rates are r / One; moves are rounded toward zero
Share(d, r) == IF d >= 0 THEN (d * r) \div One ELSE 0 - ((0 - d) * r) \div One
Init == cur \in 0..TwoPi-1 /\ tgt \in 0..TwoPi-1 /\ rate \in 0..One /\ now = 0 /\ last = 0 /\ moves = <<>> /\ prev = CircDist(cur, tgt)
Move(w) == cur' = Wrap(cur + Share(w, rate)) /\ prev' = CircDist(cur, tgt)
Pulse == /\ IF now - last >= Period
            THEN /\ \E w \in Ways(tgt, cur) : Move(w)
                 /\ last' = now /\ moves' = Append(moves, now)
            ELSE prev' = CircDist(cur, tgt) /\ UNCHANGED <<cur, last, moves>>
         /\ UNCHANGED <<tgt, rate, now>>
Tick == now < Horizon /\ now' = now + 1 /\ UNCHANGED <<cur, tgt, rate, last, moves, prev>>
Next == Pulse \/ Tick
Spec == Init /\ [][Next]_vars
NeverAway == CircDist(cur, tgt) <= prev
NoOvershoot == rate = One /\ moves # <<>> => cur = tgt
OncePerPeriod == \A k \in 1..Len(moves) : moves[k] >= Period * k
\* the choice: well defined, never a worse option
Opts == [b: {-2, 0, 1, 2, 4}, c: {-1, 0, 1, 2}]
ASSUME \A x, y \in Opts : /\ Choices(<<x, y>>, 1) # {}
                          /\ (Better(y, x, 1) => Choices(<<x, y>>, 1) = {2})
                          /\ (x = y => Choices(<<x, y>>, 1) = {1})
ASSUME \A x, y, z \in Opts : Better(x, y, 1) /\ Better(y, z, 1) => Better(x, z, 1)
=============================================================================
