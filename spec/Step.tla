-------------------------------- MODULE Step --------------------------------
(* One update of a synchronization attempt: how far each agent may be moved  *)
(* and how its frequency is adjusted, from the measurement just before it.   *)
(* h: configuration; shares and factors in 1/10000, angles in phase units,   *)
(* frequencies in microseconds.                                              *)
(* m: coh, var (mean square distance to the mean), mean (phase), f (mean     *)
(* frequency).                                                               *)
EXTENDS Sync
CONSTANTS Ts          \* slack on moves
R4 == 10000
\* x * r / 10000
Prod(x, r) == LET a == Abs(x) b == Abs(r) v == ((a \div 100) * b + ((a % 100) * b) \div 100) \div 100
              IN IF (x < 0) # (r < 0) THEN 0 - v ELSE v
Pi == TwoPi \div 2
\* share of half a turn, in 1/10000
Turn4(d) == (Abs(d) * 100) \div (Pi \div 100)
BothWays(a, b) == LET d == CircDiff(a, b) IN IF Abs(d) >= Pi - Ts THEN {d, IF d > 0 THEN d - TwoPi ELSE d + TwoPi} ELSE {d}

\* ---- which kind of update the measurement calls for ----
Strictly(a, b) == Not3(GE3(b, a))
Scatter3(h, m) == And3(Not3(GE3(TargetOf(h), 400000)), Strictly(m.coh, TargetOf(h)))
Align3(h, m)   == And3(GE3(m.coh, h.high), Strictly(m.var, h.pv))
Thin3(h, m)    == And3(Strictly(m.coh, h.vh), Not3(GE3(m.var, h.pv)))
\* the share of the way to the goal: the farther the coherence from its target, the greater
FarShare(h, coh) == Max2(Prod(h.base, R4 - ((coh * 15) \div 10000)), 4000)
ShareOf(h, coh, gap) == CASE gap <= 10000 -> 1000 [] gap <= 50000 -> 2000 [] gap <= 100000 -> 3000 [] gap <= 200000 -> 4000
                          [] OTHER -> FarShare(h, coh)
Shares(h, m) == LET g == TargetOf(h) - m.coh IN {ShareOf(h, m.coh, g - Mg), ShareOf(h, m.coh, g + Mg)}
Kinds(h, m) ==
  (IF Scatter3(h, m) # "no" THEN {[k |-> "scatter", sc |-> 0]} ELSE {})
  \cup (IF Scatter3(h, m) = "yes" THEN {} ELSE
        (IF Align3(h, m) # "no" THEN {[k |-> "align", sc |-> Prod(h.base, 12000)]} ELSE {})
        \cup (IF Align3(h, m) = "yes" THEN {} ELSE
              UNION {(IF Thin3(h, m) # "no" THEN {[k |-> "thin", sc |-> s \div 5]} ELSE {})
                     \cup (IF Thin3(h, m) = "yes" THEN {} ELSE {[k |-> "pull", sc |-> s]}) : s \in Shares(h, m)}))

\* ---- what the whole swarm lacks, made up for in common ----
\* phase: g is the goal; a share of the gap no greater than the gap's own severity
GapShares(d4) == {d4, Min2(d4, 5000)}
PhaseGap3(h, m) == Strictly(CircDist(h.gp, m.mean), 100000)
Common(h, m, to) ==
  LET sev == Turn4(CircDist(h.gp, m.mean)) IN
  (IF PhaseGap3(h, m) # "yes" THEN {0} ELSE {})
  \cup (IF PhaseGap3(h, m) # "no" THEN UNION {{Prod(d, s) : s \in GapShares(sev)} : d \in BothWays(to, m.mean)} ELSE {})
\* frequency
Off4(h, m) == Min2(((Abs(m.f - h.gf) \div 10) * R4) \div (h.gf \div 10), R4)
FreqGap3(h, m) == Strictly(Off4(h, m) * 100, 50000 + 0)
FreqSet(h, m, to) ==
  (IF Off4(h, m) < 510 THEN {0} ELSE {})
  \cup (IF Off4(h, m) > 490 THEN {Prod(to - m.f, s) : s \in GapShares(Off4(h, m))} ELSE {})
\* the built-in pattern templates stand at phase 0 and at 250 or 200 ms, wherever the goal is
TDist(m, tf, tc) == (4 * 100 * Turn4(CircDist(m.mean, 0)) + 3 * Min2((Abs(m.f - tf) * 100) \div (tf \div 10000), One) + 3 * Abs(tc - m.coh)) \div 10
TList == <<<<250000, 1000000>>, <<250000, 650000>>, <<200000, 500000>>>>
TDists(m) == [k \in 1..3 |-> TDist(m, TList[k][1], TList[k][2])]
Pinned(m) == LET q == TDists(m) lo == MinSeq(q) IN {TList[k][1] : k \in {j \in 1..3 : q[j] <= lo + 1000 /\ q[j] < 701000}}

\* ---- the range of one agent's move ----
Sn4(h) == Min2(h.size * 100, R4)
Half4(h, m) == (h.b0 + Prod(h.b1 - h.b0, R4 - Sn4(h)) + Prod(h.cf, m.coh \div 100)) \div 2
Rr4(h) == 3000 + (R4 - Sn4(h)) \div 5
LoF(h, m) == Prod(R4 - Rr4(h) \div 2, R4 - Half4(h, m))
HiF(h, m) == Prod(R4 + Rr4(h) \div 2, R4 + Half4(h, m))
Idle(h, m) == 10000 + (m.coh * 3) \div 100 + 2 * (R4 - Sn4(h))
\* v is b times a factor between lo and hi, on the circle
Within(v, b, lo, hi, slack) ==
  LET x == Prod(b, lo) y == Prod(b, hi) IN
  \E k \in {-1, 0, 1} : v + k * TwoPi >= Min2(x, y) - slack /\ v + k * TwoPi <= Max2(x, y) + slack
\* the ways an agent at phase p may be moved by v and its frequency be changed by w; x is room for noise
Wander(v, room, x) == Abs(v) <= room \div 2 + Ts + x
Still(v, x) == Abs(v) <= 2 * Tol + x
\* adj: the common adjustment of the frequency
FreqOK(adj, f, w) ==
  \/ Abs(adj) >= 800 /\ f + adj > -300 /\ Abs(w - adj) <= 300
  \/ (Abs(adj) <= 1200 \/ f + adj < 300) /\ w = 0
Pulled(h, m, sc, A, a, x) ==
  LET v == CircDiff(a[3], a[1]) IN
  \E d \in BothWays(h.gp, a[1]) :
    \/ Abs(d) > Idle(h, m) - Ts /\ Within(v, Prod(A, 3000) + Prod(d, sc), LoF(h, m), HiF(h, m), Ts + x)
    \/ Abs(d) < Idle(h, m) + Ts /\ (Still(v, x) \/ (h.pch > 0 /\ m.coh > h.mod - Mg /\ Wander(v, h.pm, x)))
Aligned(h, m, sc, a, x) ==
  LET v == CircDiff(a[3], a[1]) IN
  \E d \in BothWays(h.gp, a[1]) :
    \/ Abs(d) > h.pdt - Ts /\ Within(v, Prod(Prod(d, sc), 9000), 9500, 10500, Ts + x)
    \/ Abs(d) < h.pdt + Ts /\ Still(v, x)
Third(n) == (n + 2) \div 3
\* agents: sequence of <<phase, frequency, phase after, frequency after>>
\* cnt: how many of them may have received noise besides
Explained(h, m, q, kd, A, adj, cnt) ==
  LET n == Len(q)
      x == cnt * (h.nm \div 2)
      Fr(a) == FreqOK(adj, a[2], a[4] - a[2])
      One1(a, r) == CASE kd.k = "scatter" -> Wander(CircDiff(a[3], a[1]), Prod(TwoPi, 1500), r) /\ a[4] = a[2]
                      [] kd.k = "align" -> Aligned(h, m, kd.sc, a, r) /\ Fr(a)
                      [] OTHER -> Pulled(h, m, kd.sc, A, a, r) /\ Fr(a)
      Walk(a, r) == Wander(CircDiff(a[3], a[1]), h.rwm, r) /\ a[4] = a[2]
  IN IF kd.k # "thin"
     THEN /\ cnt = 0 => \A k \in 1..n : One1(q[k], 0)
          /\ cnt > 0 => /\ Cardinality({k \in 1..n : ~One1(q[k], 0)}) <= cnt
                        /\ \A k \in 1..n : One1(q[k], x)
     ELSE \* all but a third of the agents wander about where they are
          LET P == {k \in 1..n : One1(q[k], 0)}  W == {k \in 1..n : Walk(q[k], 0)} IN
          /\ n - Cardinality(P \cup W) <= cnt
          /\ n - Cardinality(W) <= Third(n) + cnt
          /\ n - Cardinality(P) <= n - Third(n) + cnt
          /\ cnt > 0 => \A k \in 1..n : One1(q[k], x) \/ Walk(q[k], x)
\* the update leads to the goal, possibly with cnt agents under noise
Leads(h, m, q, cnt) == \E kd \in Kinds(h, m) : \E A \in Common(h, m, h.gp) : \E adj \in FreqSet(h, m, h.gf) : Explained(h, m, q, kd, A, adj, cnt)
\* the recorded deviation: the common part leads to a template instead
LeadsAstray(h, m, q, cnt) ==
  \E kd \in Kinds(h, m) : \E tf \in Pinned(m) : \E A \in Common(h, m, 0) : \E adj \in FreqSet(h, m, tf) : Explained(h, m, q, kd, A, adj, cnt)
\* not in lock-step: agents at the same phase are not all moved alike
LockStep(h, m, q) ==
  \E k \in 1..Len(q) :
    LET S == {j \in 1..Len(q) : CircDist(q[j][1], q[k][1]) <= Tol} IN
    /\ Cardinality(S) >= 5
    /\ \A j \in S : CircDist(q[j][3], q[k][3]) <= 2 * Tol
    /\ CircDist(q[k][3], q[k][1]) > 150000
Noisy(h, n) == Max2(1, (n * (h.aff + 1)) \div R4)
=============================================================================
