------------------------------- MODULE Basin --------------------------------
(* An attractor basin b = [tgt, fr, s, r]: target phase and frequency,       *)
(* strength in 0..One, radius in phase units.                                *)
EXTENDS Share
Dist(b, ph) == CircDist(ph, b.tgt)
Inside(b, ph) == Dist(b, ph) <= b.r
\* the pull f at distance d <= r is s * (r - d) / r, compared without dividing
PullIs(b, d, f) == IF b.r = 0 THEN NearT(f, b.s, 2)
                   ELSE CloseW(Mul(f, b.r), Mul(b.s, Max2(0, b.r - d)), Add(Mul(2 * Tol, One), Mul(3, b.r)))
\* in small models: the pull rounded down, and the step toward the target
Pull(b, ph) == IF ~Inside(b, ph) THEN 0 ELSE IF b.r = 0 THEN b.s ELSE (b.s * (b.r - Dist(b, ph))) \div b.r
StepBy(d, f) == LET m == (Abs(d) * f) \div One IN IF d < 0 THEN 0 - m ELSE m
=============================================================================
