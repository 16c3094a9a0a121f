-------------------------------- MODULE Sync --------------------------------
(* A synchronization attempt: when it succeeds, when it gives up, and the    *)
(* supervision of a continuous run (when it starts attempts).                *)
(* h: configuration; m: a measurement of the agents                          *)
(*   m.coh  coherence               m.pf  distance of the mean phase / Pi    *)
(*   m.fq   mean frequency / goal   m.conv phase convergence                 *)
EXTENDS Base
CONSTANTS Mg          \* comparisons closer than this are left open
\* ---- what the size allows ----
Theo(n) == CASE n = 1 -> 1000000 [] n < 5 -> 950000 [] n < 10 -> 980000 [] n < 20 -> 990000 [] n < 50 -> 995000 [] n < 100 -> 998000 [] OTHER -> 999000
Prac(n) == CASE n = 1 -> 1000000 [] n < 5 -> 850000 [] n < 10 -> 920000 [] n < 20 -> 950000 [] n < 50 -> 970000 [] n < 100 -> 980000 [] OTHER -> 990000
\* the goal coherence of a swarm and the target of its attempts
GoalOf(h) == IF h.via = "new" THEN Min2(h.goal, Prac(h.size)) ELSE h.goal
TargetOf(h) == Min2(GoalOf(h), Theo(h.size))

\* ---- open comparisons ----
GE3(a, b) == IF a >= b + Mg THEN "yes" ELSE IF a < b - Mg THEN "no" ELSE "maybe"
And3(x, y) == IF x = "no" \/ y = "no" THEN "no" ELSE IF x = "yes" /\ y = "yes" THEN "yes" ELSE "maybe"
Or3(x, y) == IF x = "yes" \/ y = "yes" THEN "yes" ELSE IF x = "no" /\ y = "no" THEN "no" ELSE "maybe"
Not3(x) == IF x = "yes" THEN "no" ELSE IF x = "no" THEN "yes" ELSE "maybe"
Bools(x) == IF x = "yes" THEN {TRUE} ELSE IF x = "no" THEN {FALSE} ELSE BOOLEAN

\* ---- success ----
\* size-class tolerance, doubled near what is practical
TolBase(h) == IF h.size < 10 THEN h.tols[1] ELSE IF h.size < 50 THEN h.tols[2] ELSE h.tols[3]
Lenient3(h) == LET a == TargetOf(h) * 20  b == Prac(h.size) * 19 IN
               IF a > b + 20 * Mg THEN "yes" ELSE IF a < b - 20 * Mg THEN "no" ELSE "maybe"
Distance(h, m) == (4 * m.pf + 3 * Min2(Abs(m.fq - One), One) + 3 * Abs(TargetOf(h) - m.coh)) \div 10
Achieved3(h, m) ==
  LET t == TargetOf(h)
      cohOk(tol) == GE3(m.coh, t - tol)
      c == CASE Lenient3(h) = "yes" -> cohOk(2 * TolBase(h))
             [] Lenient3(h) = "no" -> cohOk(TolBase(h))
             [] OTHER -> IF cohOk(TolBase(h)) = cohOk(2 * TolBase(h)) THEN cohOk(TolBase(h)) ELSE "maybe"
      d == Not3(GE3(Distance(h, m), h.pdt))
      p == Or3(Not3(GE3(t, h.high)), GE3(m.conv, h.pcg))
  IN And3(And3(c, d), p)

\* ---- giving up: the numbers of update intervals the attempt may take ----
Near3(a, b) == Abs(a - b) <= 100 * Mg
Factors(h) ==
  LET t == TargetOf(h)  P == Prac(h.size)
      above == IF t > P + Mg THEN {1000000} ELSE {}
      u(k) == t * 100 < k * P
      f == IF u(80) THEN 1 ELSE IF u(90) THEN 2 ELSE IF u(95) THEN 4 ELSE 8
      lo == IF Near3(t * 100, 80 * P) THEN {1, 2} ELSE {}
      mid == IF Near3(t * 100, 90 * P) THEN {2, 4} ELSE {}
      hi == IF Near3(t * 100, 95 * P) THEN {4, 8} ELSE {}
  IN IF above # {} THEN above ELSE {f} \cup lo \cup mid \cup hi
\* h.fac: the configured factor in hundredths
Budgets(h) == {IF k >= 1000 THEN 1000 ELSE Min2(1000, (h.fac * k) \div 100) : k \in Factors(h)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* ---- supervision of a continuous run ----
Decay(p) == p - (p * 5 + 5000) \div 10000
Share(x, r) == ((x \div 1000) * r) \div 1000 + ((x % 1000) * r) \div 1000000   \* x * r, both in units One = 10^6
Need3(h, s, peak, c) ==
  LET g == GoalOf(h)
      below == Or3(Not3(GE3(c, h.minv)), Not3(GE3(c, Share(g, h.margin))))
      drop == peak - c
      small == Not3(GE3(Share(peak, h.sdrop), drop))
      large == Not3(GE3(Share(peak, h.ldrop), drop))
      fromPeak == And3(small, Or3(large, Not3(GE3(c, g))))
      fromLast == Not3(GE3(c, s.last - Share(s.last, h.sdrop)))
  IN Or3(below, Or3(fromPeak, fromLast))
\* s: [act, at, n, last, peak, since]: an attempt under way started at time at
\* and has taken n updates; the last one began at since
CheckAt(h, s, m, now) ==
  LET peak == IF m.coh > s.peak THEN m.coh ELSE Decay(s.peak) IN
  {LET go == need /\ ~s.act /\ now - s.since > h.gap IN
     [s EXCEPT !.last = m.coh, !.peak = IF go THEN m.coh ELSE peak,
               !.act = s.act \/ (go /\ MaxOf(Budgets(h)) > 0), !.at = IF go THEN now ELSE s.at,
               !.n = IF go THEN 0 ELSE s.n, !.since = IF go THEN now ELSE s.since]
   : need \in Bools(Need3(h, s, peak, m.coh))}
\* an update of the attempt: the pair of successor and whether it moved agents
TickAt(h, s, m) ==
  UNION {IF ok THEN {[s |-> [s EXCEPT !.act = FALSE], moved |-> FALSE]}
         ELSE {[s |-> [s EXCEPT !.act = (s.n + 1 < b), !.n = s.n + 1], moved |-> TRUE] : b \in Budgets(h)}
         : ok \in Bools(Achieved3(h, m))}
=============================================================================
