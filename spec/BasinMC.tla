------------------------------ MODULE BasinMC -------------------------------
(* A state that follows a basin's suggestions, pushed around now and then by *)
(* someone else: following never leads away from the target, past it or out  *)
(* of the basin, and being left alone in reach of a full pull it arrives.    *)
EXTENDS Basin
VARIABLES b, ph, pushed, pushes
vars == <<b, ph, pushed, pushes>>
Circle == 0..(TwoPi - 1)
Init == /\ b \in [tgt: {0, 1, TwoPi \div 2, TwoPi - 1}, fr: {0}, s: 0..One, r: 0..(TwoPi \div 2 + 1)]
        /\ ph \in Circle /\ pushed = FALSE /\ pushes = 0
Follow == \E w \in Ways(b.tgt, ph) :
            /\ ph' = Wrap(ph + StepBy(w, Pull(b, ph))) /\ pushed' = FALSE /\ UNCHANGED <<b, pushes>>
Push == pushes < 1 /\ ph' \in Circle /\ pushed' = TRUE /\ pushes' = pushes + 1 /\ UNCHANGED b
Next == Follow \/ Push
Spec == Init /\ [][Next]_vars /\ WF_vars(Follow)
Ranges == /\ Pull(b, ph) \in 0..b.s
          /\ (~Inside(b, ph) => Pull(b, ph) = 0)
          /\ (ph = b.tgt => Pull(b, ph) = b.s)
          /\ PullIs(b, Dist(b, ph), Pull(b, ph)) \/ ~Inside(b, ph)
\* closer means pulled at least as much
Monotone == \A p \in Circle : Dist(b, p) <= Dist(b, ph) => Pull(b, p) >= Pull(b, ph)
NeverAway == [][~pushed' => Dist(b, ph') <= Dist(b, ph)]_vars
StaysInside == [][~pushed' /\ Inside(b, ph) => Inside(b, ph')]_vars
\* left alone in a full-strength basin it comes to where rounded steps end
Settles == (b.s = One /\ Inside(b, ph)) ~> (\E w \in Ways(b.tgt, ph) : StepBy(w, Pull(b, ph)) = 0)
=============================================================================
