------------------------------- MODULE Pattern -------------------------------
(* Comparing and completing coordination patterns.  A pattern is              *)
(* [ph |-> phase, fr |-> period, coh |-> coherence].                          *)
EXTENDS Base
\* d / f in units of One, at most One; for 0 <= d, 0 < f
RECURSIVE Ratio(_, _)
Ratio(d, f) == IF d >= f THEN One
               ELSE IF f > 2000000 THEN LET k == f \div 2000000 + 1 IN Ratio(d \div k, f \div k)   \* within 32 bits
               ELSE IF One <= 1000 THEN (d * One) \div f
               ELSE ((d * 1000) \div f) * (One \div 1000) + (((d * 1000) % f) * (One \div 1000)) \div f
\* distance on the circle as a share of half a turn, in units of One
Half == TwoPi \div 2
ArcShare(a, b) == LET c == CircDist(a, b) IN
                  IF One <= 1000 THEN Min2(One, (c * 2 * One) \div TwoPi)
                  ELSE Min2(One, ((c * 500) \div Half) * (One \div 500) + ((((c * 500) % Half) * 500) \div Half) * (One \div 250000))
FreqShare(c, t) == IF t <= 0 THEN 0 ELSE IF c <= 0 THEN One ELSE Ratio(Abs(c - t), t)
\* how far c is from the target t, in units of One
Distance(c, t) == (4 * ArcShare(c.ph, t.ph) + 3 * FreqShare(c.fr, t.fr) + 3 * Abs(t.coh - c.coh)) \div 10
\* the aspects of c that are open with respect to t; thresholds given
PhaseOpen(c, t, lim) == CircDist(c.ph, t.ph) > lim
FreqOpen(c, t, lim)  == c.fr > 0 /\ t.fr > 0 /\ FreqShare(c.fr, t.fr) > lim
CohOpen(c, t, lim)   == t.coh - c.coh > lim
\* w / One of d, rounded toward zero
PartOf(d, w) == IF d >= 0 THEN (d * w) \div One ELSE 0 - (((0 - d) * w) \div One)
=============================================================================
