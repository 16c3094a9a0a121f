----------------------------- MODULE PatternTrace ----------------------------
EXTENDS Pattern, Wide, TraceLib
Mg == 12        \* margin of the projections and of the stepwise divisions
TraceInit0(h) == 0
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Ways(a, b) == LET d == CircDiff(a, b) IN IF 2 * Abs(d) >= TwoPi - 4 * Tol THEN {d, IF d > 0 THEN d - TwoPi ELSE d + TwoPi} ELSE {d}
CloseW(x, y, slack) == Leq(x, Add(y, slack)) /\ Leq(y, Add(x, slack))
\* v is the share r / One of d, in either direction when sgn says so
ShareIs(v, d, r) == /\ (Abs(v) <= 2 * Tol \/ Abs(d) <= Tol \/ Sign(v) = Sign(d)) /\ CloseW(Mul(Abs(v), One), Mul(Abs(d), r), Mul(4 * Tol, One))
\* the phase x is the share r of the way from b to a; sgn = -1: of the opposite way
PhaseMoves(x, a, b, r, sgn) == \E w \in Ways(a, b) : LET y == CircDiff(x, b) IN
    ShareIs(sgn * y, w, r) \/ (2 * Abs(y) >= TwoPi - 6 * Tol /\ CloseW(Mul(Abs(y), One), Mul(Abs(w), r), Mul(4 * Tol, One)))

\* ---- distance and gaps ----
DistJ(e) == First(<<Need(NearT(e.ab, Distance(e.a, e.b), Mg), "the distance is not the weighted sum of the differences"),
                    Need(NearT(e.ba, Distance(e.b, e.a), Mg), "the distance is not the weighted sum of the differences"),
                    Need(e.le, "a distance is above 1 or negative"),
                    Need(e.missing, "a missing pattern is not at the greatest distance")>>)
Lim == [phase |-> 100000, freq |-> 50000, coh |-> 50000]
\* must / may an aspect be reported
MayOpen(e, ty)  == CASE ty = "phase" -> PhaseOpen(e.a, e.b, Lim.phase - Mg) [] ty = "frequency" -> FreqOpen(e.a, e.b, Lim.freq - Mg) [] ty = "coherence" -> CohOpen(e.a, e.b, Lim.coh - Mg) [] OTHER -> FALSE
MustOpen(e, ty) == CASE ty = "phase" -> PhaseOpen(e.a, e.b, Lim.phase + Mg) [] ty = "frequency" -> FreqOpen(e.a, e.b, Lim.freq + Mg) [] ty = "coherence" -> CohOpen(e.a, e.b, Lim.coh + Mg)
GapJ(e, g) == CASE g.ty = "phase" -> First(<<Need(SamePhase(g.cur, e.a.ph) /\ SamePhase(g.tgt, e.b.ph), "a gap does not name the values it lies between"), Need(NearT(g.sev, ArcShare(e.a.ph, e.b.ph), Mg), "the severity of a phase gap is wrong")>>)
                [] g.ty = "frequency" -> First(<<Need(g.cur = e.a.fr /\ g.tgt = e.b.fr, "a gap does not name the values it lies between"), Need(NearT(g.sev, FreqShare(e.a.fr, e.b.fr), Mg), "the severity of a frequency gap is wrong")>>)
                [] g.ty = "coherence" -> First(<<Need(g.cur = e.a.coh /\ g.tgt = e.b.coh, "a gap does not name the values it lies between"), Need(NearT(g.sev, e.b.coh - e.a.coh, Mg), "the severity of a coherence gap is wrong")>>)
                [] OTHER -> "an unknown aspect is reported"
GapsJ(e) == First([k \in 1..Len(e.g) |-> GapJ(e, e.g[k])] \o
             <<Need(\A k \in 1..Len(e.g) : MayOpen(e, e.g[k].ty), "an aspect within its tolerance is reported"),
               Need(\A ty \in {"phase", "frequency", "coherence"} : MustOpen(e, ty) => \E k \in 1..Len(e.g) : e.g[k].ty = ty, "an open aspect is not reported"),
               Need(\A j, k \in 1..Len(e.g) : j # k => e.g[j].ty # e.g[k].ty, "an aspect is reported twice"),
               Need(e.sevok, "a severity is outside 0..1")>>)

\* ---- completion ----
None == -1
GapOf(e, ty) == {k \in 1..Len(e.g) : e.g[k].ty = ty}
HasGap(e, ty) == GapOf(e, ty) # {}
TheGap(e, ty) == e.g[CHOOSE k \in GapOf(e, ty) : TRUE]
Capped(s) == Min2(s, One \div 2)
LinMoves(x, a, b, r) == ShareIs(x - b, a - b, r)
PhaseJ(e, a, b, r, sgn) == Need(e.ph # None /\ PhaseMoves(e.ph, a, b, r, sgn), "the phase is not moved by the share of the shorter way")
FreqJ(e, a, b, r) == Need(e.fr # None /\ LinMoves(e.fr, a, b, r), "the period is not moved by the share of the way")
\* without a template
PlainJ(e, sgn) ==
  First(<<IF HasGap(e, "phase") THEN LET g == TheGap(e, "phase") IN PhaseJ(e, g.tgt, g.cur, Capped(g.sev), sgn) ELSE Need(e.ph = None, "a closed phase is filled"),
          IF HasGap(e, "frequency") THEN LET g == TheGap(e, "frequency") IN FreqJ(e, g.tgt, g.cur, Capped(g.sev)) ELSE Need(e.fr = None, "a closed period is filled"),
          IF HasGap(e, "coherence") THEN LET g == TheGap(e, "coherence") IN Need(e.hasb /\ ShareIs(e.boost, g.tgt - g.cur, Capped(g.sev)), "the coherence is not moved by the share of the way") ELSE Need(~e.hasb, "a closed coherence is filled"),
          Need(e.wave = <<>>, "a waveform appears without a template")>>)
\* the waveform mixed from c and t by sev
WaveOK(x, c, tt, sev) ==
  IF c = <<>> THEN x = tt
  ELSE LET n == Max2(Len(c), Len(tt)) IN
       Len(x) = n /\ \A k \in 1..n : LET cv == c[((k - 1) * Len(c)) \div n + 1]  tv == tt[((k - 1) * Len(tt)) \div n + 1] IN
         \/ ShareIs(x[k] - cv, tv - cv, sev)
TemplJ(e, tt, sgn) ==
  First(<<IF HasGap(e, "phase") THEN PhaseJ(e, tt.ph, e.c.ph, TheGap(e, "phase").sev, sgn) ELSE Need(e.ph = None, "a closed phase is filled"),
          IF HasGap(e, "frequency") THEN FreqJ(e, tt.fr, e.c.fr, TheGap(e, "frequency").sev) ELSE Need(e.fr = None, "a closed period is filled"),
          IF HasGap(e, "coherence") THEN Need(e.hasb /\ ShareIs(e.boost, tt.coh, TheGap(e, "coherence").sev), "the coherence boost is not the template's share") ELSE Need(~e.hasb, "a closed coherence is filled"),
          IF HasGap(e, "waveform") /\ tt.wave # <<>> THEN Need(WaveOK(e.wave, e.c.wave, tt.wave, TheGap(e, "waveform").sev), "the waveform is not mixed by its severity") ELSE Need(e.wave = <<>>, "a closed waveform is filled")>>)
Match == 700000
Dists(e) == [k \in 1..Len(e.ts) |-> Distance(e.c, e.ts[k])]
\* templates that may be the closest one below the threshold
MayUse(e) == {k \in 1..Len(e.ts) : Dists(e)[k] < Match + Mg /\ \A j \in 1..Len(e.ts) : Dists(e)[k] <= Dists(e)[j] + 2 * Mg}
MayPlain(e) == \A k \in 1..Len(e.ts) : Dists(e)[k] >= Match - Mg
BodyOK(e, sgn) == (MayPlain(e) /\ PlainJ(e, sgn) = "") \/ \E k \in MayUse(e) : TemplJ(e, e.ts[k], sgn) = ""
BodyWhy(e) == IF MayUse(e) = {} THEN PlainJ(e, 1)
              ELSE IF MayPlain(e) THEN "neither filled toward the target nor toward the closest template"
              ELSE IF PlainJ(e, 1) = "" THEN "a matching template is not used"
              ELSE TemplJ(e, e.ts[CHOOSE k \in MayUse(e) : TRUE], 1)
AdjOK(e, sgn) == /\ IF e.ph = None THEN e.adj = 0 ELSE \E w \in Ways(e.ph, e.c.ph) : Abs(sgn * e.adj - w) <= 2 * Tol
                 /\ IF e.fr = None THEN e.fadj = 0 ELSE Abs(e.fadj - (e.fr - e.c.fr)) <= 2
RestC(e) == First(<<Need(AdjOK(e, 1), "the adjustment does not lead from the pattern to what was filled in"),
                    Need(e.circ, "a filled phase is off the circle"), Need(e.kept, "completing changed the pattern or a template")>>)
StepComplete(s, e) ==
  IF Prop # "C23" THEN OK(s)
  ELSE IF BodyOK(e, 1) /\ RestC(e) = "" THEN OK(s)
  ELSE IF e.odd /\ (BodyOK(e, 1) \/ BodyOK(e, -1)) /\ (AdjOK(e, 1) \/ AdjOK(e, -1)) /\ e.circ /\ e.kept THEN Known(s, "phase-difference-three-quarters")
  ELSE Bad(s, IF BodyOK(e, 1) THEN RestC(e) ELSE BodyWhy(e))

\* ---- sequences ----
Valid(e) == e.s >= 0 /\ e.e < Len(e.phs) /\ e.s < e.e
Steps(e) == e.e - e.s - 1
\* the k-th of n steps of the way w from b
StepIs(x, b, w, k, n, sgn) == LET y == sgn * CircDiff(x, b) IN
   /\ CloseW(Mul(Abs(y), n), Mul(Abs(w), k), Mul(2 * Tol, n)) /\ (Abs(y) <= Tol \/ Sign(y) = Sign(w))
FillShape(e) == First(<<IF ~Valid(e) THEN Need(e.r = <<>>, "a gap outside the pattern is filled") ELSE Need(Len(e.r) = Max2(0, Steps(e)), "not the requested number of phases"),
                        Need(e.circ, "a filled phase is off the circle")>>)
FillOK(e, sgn) == ~Valid(e) \/ \E w \in Ways(e.phs[e.e + 1], e.phs[e.s + 1]) : \A k \in 1..Len(e.r) : StepIs(e.r[k], e.phs[e.s + 1], w, k, Steps(e) + 1, sgn)
StepFill(s, e) ==
  IF Prop # "C23" THEN OK(s)
  ELSE IF FillShape(e) = "" /\ e.odd /\ ~FillOK(e, 1) /\ FillOK(e, -1) THEN Known(s, "phase-difference-three-quarters")
  ELSE Ver(s, <<FillShape(e), Need(FillOK(e, 1), "the filled phases do not follow the shorter arc in equal steps")>>)
Quarter == (TwoPi + 2) \div 4
Jump(e, k) == CircDist(e.phs[k + 1], e.phs[k])
DetectJ(e) ==
  First(<<Need(\A j \in 1..Len(e.g) : e.g[j].s \in 0..Len(e.phs) - 2 /\ e.g[j].e = e.g[j].s + 1, "a gap is not between neighbors"),
          Need(\A j \in 1..Len(e.g) : Jump(e, e.g[j].s + 1) > Quarter - Tol, "a gap is reported where the phases are close"),
          Need(\A k \in 1..Len(e.phs) - 1 : Jump(e, k) > Quarter + Tol => \E j \in 1..Len(e.g) : e.g[j].s = k - 1, "a jump is not reported"),
          Need(\A j \in 1..Len(e.g) - 1 : e.g[j].s < e.g[j + 1].s, "gaps are out of order or reported twice"),
          Need(\A j \in 1..Len(e.g) : e.g[j].d = IF e.g[j].s + 1 <= Len(e.frs) THEN e.frs[e.g[j].s + 1] ELSE 0, "the duration of a gap is not that of its start")>>)

\* ---- similarity (C25) ----
RECURSIVE SumArc(_, _, _)
SumArc(p, q, k) == IF k = 0 THEN 0 ELSE ArcShare(p[k], q[k]) + SumArc(p, q, k - 1)
PhaseSim(e) == IF Len(e.a.phs) # Len(e.b.phs) THEN 0 ELSE One - SumArc(e.a.phs, e.b.phs, Len(e.a.phs)) \div Len(e.a.phs)
PartSim(x, y) == IF x = y THEN One ELSE One - Ratio(Abs(x - y), Max2(x, y))
Comparable(e) == e.a.phs # <<>> /\ e.b.phs # <<>> /\ Max2(e.a.per, e.b.per) > 0
\* the phase agreement counts less the further the scales differ, from a hundredfold on and down to a tenth
Damp(p, r) == IF r <= 100000 THEN p ELSE IF r >= 1000000 THEN p \div 10 ELSE (((p \div 10) * 10000) \div r) * 100
RestSim(e) == (3 * PartSim(e.a.per, e.b.per) + 4 * Damp(PhaseSim(e), e.scale)) \div 10
SimF(e) == RestSim(e) + (3 * PartSim(e.a.amp, e.b.amp)) \div 10
\* what a similarity may be; the agreement of tiny amplitudes is that of rounding errors
SimLow(e)  == IF e.tiny = 1 THEN RestSim(e) ELSE SimF(e)
SimHigh(e) == IF e.tiny = 1 THEN RestSim(e) + (3 * One) \div 10 ELSE SimF(e)
SimJ(e) ==
  First(<<Need(e.range, "a similarity is not a number in 0..1"),
          Need(e.ab = e.ba \/ NearT(e.ab, e.ba, 1), "the similarity is not symmetric"),
          Need(e.none, "a missing or empty pattern is similar to something"),
          IF ~Comparable(e) THEN Need(e.ab = 0, "patterns that cannot be compared are similar")
          ELSE First(<<Need(e.same # 1 \/ NearT(e.ab, One, 3), "identical patterns are not fully similar"),
                       Need(e.ab >= SimLow(e) - 120 /\ e.ab <= SimHigh(e) + 120, "the similarity is not the weighted agreement of amplitude, period and phases")>>)>>)
MatchJ(e) == Need(IF \E k \in 1..Len(e.sims) : e.sims[k] >= One - e.tol + 2 THEN e.r ELSE IF \A k \in 1..Len(e.sims) : e.sims[k] <= One - e.tol - 2 THEN ~e.r ELSE TRUE,
                  "a template matches exactly when its base or a variation is similar enough")
IdentJ(e) == IF e.sims = <<>> \/ MaxSeq(e.sims) = 0 THEN Need(e.k = 0 /\ e.sim = 0, "something is identified although nothing is similar")
             ELSE Need(e.k \in 1..Len(e.sims) /\ NearT(e.sims[e.k], MaxSeq(e.sims), 1) /\ NearT(e.sim, MaxSeq(e.sims), 1), "the identified template is not the most similar one")
\* the amplitude is the spread of the phases: n * amp^2 = sum of squared deviations, in thousandths
RECURSIVE SumSq(_, _, _)
SumSq(p, m, k) == IF k = 0 THEN 0 ELSE LET d == p[k] \div 1000 - m IN d * d + SumSq(p, m, k - 1)
RECURSIVE SumK(_, _)
SumK(p, k) == IF k = 0 THEN 0 ELSE p[k] \div 1000 + SumK(p, k - 1)
SpreadOK(e) == LET n == Len(e.phs)  m == SumK(e.phs, n) \div n  a == e.amp \div 1000 IN
    \/ \E k \in 1..n : e.phs[k] < 100 \/ e.phs[k] > TwoPi - 100       \* on either side of the cut
    \/ Abs(n * a * a - SumSq(e.phs, m, n)) <= 20 * n * (a + 20)
NewJ(e) == First(<<Need(Len(e.phs) < 2 \/ SpreadOK(e), "the amplitude is not the spread of the phases"),
                   Need(IF e.n = 0 THEN e.per = 0 ELSE NearT(e.per, e.sum \div e.n, 1), "the period is not the mean"),
                   Need(e.amp >= 0 /\ (e.flat => e.amp = 0), "the amplitude is negative, or not zero for a constant pattern"), Need(e.conf, "a new pattern is not fully confident")>>)

TraceStep(s, e) ==
  CASE e.op = "dist" -> Ver(s, <<For("C23", DistJ(e))>>)
    [] e.op = "gaps" -> Ver(s, <<For("C23", GapsJ(e))>>)
    [] e.op = "complete" -> StepComplete(s, e)
    [] e.op = "fill" -> StepFill(s, e)
    [] e.op = "detect" -> Ver(s, <<For("C23", DetectJ(e))>>)
    [] e.op = "sim" -> Ver(s, <<For("C25", SimJ(e))>>)
    [] e.op = "match" -> Ver(s, <<For("C25", MatchJ(e))>>)
    [] e.op = "ident" -> Ver(s, <<For("C25", IdentJ(e))>>)
    [] e.op = "new" -> Ver(s, <<For("C25", NewJ(e))>>)
=============================================================================
