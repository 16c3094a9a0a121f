------------------------------ MODULE Monitor -------------------------------
(* A convergence monitor: the measurements since the last reset with their   *)
(* times, and the reports derived from them.                                 *)
EXTENDS Base
NewMonitor(thr, t) == [thr |-> thr, start |-> t, h |-> <<>>, at |-> <<>>]
Record(m, v, t) == [m EXCEPT !.h = Append(@, v), !.at = Append(@, t)]
Reset(m, t) == [m EXCEPT !.h = <<>>, !.at = <<>>, !.start = t]
N(m) == Len(m.h)
Current(m) == IF N(m) = 0 THEN 0 ELSE m.h[N(m)]
Converged(m) == N(m) > 0 /\ m.h[N(m)] >= m.thr
\* index at which the current stretch at or above the threshold began
RECURSIVE Back(_, _)
Back(m, k) == IF k = 1 \/ m.h[k - 1] < m.thr THEN k ELSE Back(m, k - 1)
ConvTime(m) == IF ~Converged(m) THEN 0 ELSE m.at[Back(m, N(m))] - m.start
\* least-squares slope over the last ten measurements: <<numerator, denominator>>
Window(m, w) == SubSeq(m.h, Max2(1, N(m) - w + 1), N(m))
RECURSIVE SumIX(_, _)
SumIX(q, k) == IF k = 0 THEN 0 ELSE (k - 1) * q[k] + SumIX(q, k - 1)
Slope(q) == LET n == Len(q)
                sx == (n * (n - 1)) \div 2
                sxx == (n * (n - 1) * (2 * n - 1)) \div 6
            IN <<n * SumIX(q, n) - sx * SumSeq(q), n * sxx - sx * sx>>
SlopeIs(r, q) == IF Len(q) < 2 THEN r = 0
                 ELSE LET s == Slope(q) IN Abs(r * s[2] - s[1]) <= 2 * s[2] + 4 * Len(q) * Len(q) * Len(q)
\* standard deviation, in thousandths
RECURSIVE SumDev(_, _, _)
SumDev(q, mu, k) == IF k = 0 THEN 0 ELSE LET d == (q[k] - mu + 500) \div 1000 IN d * d + SumDev(q, mu, k - 1)
DevIs(sd, q) == LET n == Len(q) IN
                IF n = 0 THEN sd = 0 ELSE Abs(sd * sd * n - SumDev(q, SumSeq(q) \div n, n)) <= n * (4 * Abs(sd) + 4)
MeanIs(r, q, tol) == Abs(r * Len(q) - SumSeq(q)) <= tol * Len(q)
=============================================================================
