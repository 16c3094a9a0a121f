----------------------------- MODULE BasinTrace -----------------------------
EXTENDS Basin, TraceLib
TraceInit0(h) == [tgt |-> h.tgt, fr |-> h.fr, s |-> Clamp(h.s, 0, One), r |-> h.r]
Edge(b, d) == Abs(d - b.r) <= 2 * Tol
Share01(e) == IF e.zero THEN One \div 100 ELSE e.force
AskJ(b, e, sgn) ==
  LET d == Dist(b, e.ph) IN
  First(<<Need(Abs(e.dist - d) <= 2 * Tol, "the distance is not that on the circle"),
          Need(Edge(b, d) \/ e.inb = Inside(b, e.ph), "inside is not within the radius"),
          Need(e.finite, "an answer is not a number"),
          Need(e.force >= 0 /\ e.force <= b.s, "the attraction is negative or above the strength"),
          Need(b.r >= d \/ Edge(b, d) \/ e.force = 0, "attraction outside the basin"),
          Need(b.r < d \/ (b.r = 0 /\ ~e.inb /\ e.force = 0) \/ PullIs(b, d, e.force), "the attraction does not fall off with the distance"),
          Need(e.rate >= 0 /\ e.rate <= e.force + 2, "the convergence rate is negative or above the attraction"),
          IF Edge(b, d) THEN "" ELSE
          IF d > b.r THEN Need(e.rate = 0, "a convergence rate outside the basin")
          ELSE LET m == Max2(e.fr, b.fr) IN
               IF m <= 0 THEN Need(NearT(e.rate, e.force, 2), "the convergence rate is not the attraction")
               ELSE Need(CloseW(Mul(e.rate, m), Mul(e.force, m - Abs(e.fr - b.fr)), Mul(3, m)), "the convergence rate is not lowered by the frequency difference"),
          \* attractions below the resolution move by nothing or the hundredth
          Need(\E w \in Ways(b.tgt, e.ph) :
                 /\ (Abs(e.adj) <= 2 * Tol \/ Sign(sgn * e.adj) = Sign(w))
                 /\ Abs(e.adj) <= Abs(w) + 2 * Tol
                 /\ CloseW(Mul(Abs(e.adj), One), Mul(Abs(w), Share01(e)), Add(Mul(4 * Tol, One), Mul(2, Abs(w)))), "the adjustment is not the attraction's share of the shorter way")>>)
TraceStep(b, e) ==
  CASE e.op = "ask" -> IF Prop = "C28" /\ e.odd /\ AskJ(b, e, 1) # "" /\ AskJ(b, e, -1) = "" THEN Known(b, "phase-difference-three-quarters")
                       ELSE Ver(b, <<For("C28", AskJ(b, e, 1))>>)
=============================================================================
