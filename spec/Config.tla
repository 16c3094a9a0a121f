------------------------------- MODULE Config -------------------------------
(* Swarm configurations, goal states and goal configurations: what is valid, *)
(* and what normalization makes of the rest.  Values that are not numbers    *)
(* are recorded as NaN, which lies outside every range.                      *)
EXTENDS Base
NaN == 2000000001
\* c: p (six probabilities), maxn, minn, energy, basin, upd, mon, cnt (four counts), limit, batch
InUnit(x) == x >= 0 /\ x <= One
Positive(x) == x > 0 /\ x # NaN
SizeOK(c, n) == n >= 1 /\ (c.limit > 0 => n <= c.limit)
NeighboursOK(c, n) == /\ IF n = 1 THEN c.maxn = 0 ELSE c.maxn >= 1
                      /\ n >= 1 => c.maxn <= n - 1
                      /\ c.minn >= 0 /\ c.minn <= c.maxn
ValidSwarm(c, n) == /\ SizeOK(c, n) /\ NeighboursOK(c, n)
                    /\ \A k \in 1..Len(c.p) : InUnit(c.p[k])
                    /\ Positive(c.energy) /\ Positive(c.basin) /\ Positive(c.upd) /\ Positive(c.mon)
                    /\ \A k \in 1..Len(c.cnt) : c.cnt[k] >= 0
\* what normalization cannot repair
Hopeless(c, n) == ~SizeOK(c, n) \/ c.energy = NaN \/ c.basin = NaN \/ \E k \in 1..Len(c.p) : c.p[k] = NaN
ClampP(x) == IF x = NaN THEN x ELSE Clamp(x, 0, One)
\* cnt = <<concurrent agents, optimization threshold, batch size, workers>>; the last two are filled in
\* when batching is on and they are not given (any positive number)
FilledOK(c, k, v) == IF k >= 3 /\ c.batch /\ c.cnt[k] <= 0 THEN v > 0 ELSE v = Max2(c.cnt[k], 0)
Default(d, x) == IF x # NaN /\ x <= 0 THEN d ELSE x
MaxN(c, n) == IF n = 1 THEN 0 ELSE Clamp(c.maxn, 1, n - 1)
MinN(c, n) == Clamp(c.minn, 0, MaxN(c, n))
\* the defaults: energy 100, basin pi, intervals 50 ms and 100 ms
NormalIs(c, n, d, o) ==
  /\ o.p = [k \in 1..Len(c.p) |-> ClampP(c.p[k])]
  /\ o.maxn = MaxN(c, n) /\ o.minn = MinN(c, n)
  /\ o.energy = Default(d.energy, c.energy) /\ o.basin = Default(d.basin, c.basin)
  /\ o.upd = Default(d.upd, c.upd) /\ o.mon = Default(d.mon, c.mon)
  /\ \A k \in 1..Len(c.cnt) : FilledOK(c, k, o.cnt[k])
  /\ o.limit = c.limit /\ o.batch = c.batch
\* a goal state: phase, freq, coh; fin tells whether the phase is a finite number
ValidState(s) == s.freq > 0 /\ InUnit(s.coh) /\ s.fin
StateHopeless(s) == ~s.fin \/ s.coh = NaN
StateNormalIs(s, dfreq, o) == /\ o.freq = Default(dfreq, s.freq) /\ o.coh = ClampP(s.coh)
                              /\ o.circ /\ SamePhase(o.phase, s.phase)
\* a goal configuration
ValidGoal(g) == /\ InUnit(g.scale) /\ InUnit(g.conv) /\ g.mod <= g.high /\ g.high <= g.very
                /\ g.lo >= 0 /\ g.hi >= 0 /\ g.lo <= g.hi
                /\ InUnit(g.chance) /\ g.upd > 0 /\ g.expl > 0 /\ InUnit(g.aff) /\ InUnit(g.act)
=============================================================================
