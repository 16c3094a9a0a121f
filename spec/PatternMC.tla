------------------------------ MODULE PatternMC ------------------------------
(* All pairs of patterns on a small circle: the distance is a sound measure,  *)
(* and completing a pattern again and again comes closer and never overshoots.*)
EXTENDS Pattern, TLC
CONSTANTS MaxF
VARIABLES cur, tgt, prev
vars == <<cur, tgt, prev>>
Pats == [ph : 0..TwoPi - 1, fr : 1..MaxF, coh : {0, One \div 2, One}]
Init == cur \in Pats /\ tgt \in Pats /\ prev = Distance(cur, tgt)
W(sev) == Min2(sev, One \div 2)
Phase(c, t) == IF PhaseOpen(c, t, 0) THEN Wrap(c.ph + PartOf(CircDiff(t.ph, c.ph), W(ArcShare(c.ph, t.ph)))) ELSE c.ph
Freq(c, t)  == IF FreqOpen(c, t, 0) THEN c.fr + PartOf(t.fr - c.fr, W(FreqShare(c.fr, t.fr))) ELSE c.fr
Coh(c, t)   == IF CohOpen(c, t, 0) THEN c.coh + PartOf(t.coh - c.coh, W(t.coh - c.coh)) ELSE c.coh
Next == /\ cur' = [ph |-> Phase(cur, tgt), fr |-> Freq(cur, tgt), coh |-> Coh(cur, tgt)]
        /\ prev' = Distance(cur, tgt) /\ UNCHANGED tgt
Spec == Init /\ [][Next]_vars
Bounded == Distance(cur, tgt) \in 0..One
ZeroIffEqual == (cur.ph = tgt.ph /\ cur.fr = tgt.fr /\ cur.coh = tgt.coh) => Distance(cur, tgt) = 0
Positive == CircDist(cur.ph, tgt.ph) > TwoPi \div 4 \/ 2 * Abs(cur.fr - tgt.fr) > tgt.fr \/ cur.coh # tgt.coh => Distance(cur, tgt) > 0
Symmetric == cur.fr = tgt.fr => Distance(cur, tgt) = Distance(tgt, cur)
Closer == Distance(cur, tgt) <= prev
NoOvershoot == [][/\ CircDist(cur'.ph, cur.ph) * 2 <= CircDist(cur.ph, tgt.ph)
                  /\ Abs(cur'.fr - cur.fr) * 2 <= Abs(cur.fr - tgt.fr)
                  /\ (cur.fr - tgt.fr) * (cur'.fr - tgt.fr) >= 0
                  /\ Abs(cur'.coh - cur.coh) * 2 <= Abs(cur.coh - tgt.coh)]_vars
=============================================================================
