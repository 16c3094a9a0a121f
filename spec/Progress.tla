------------------------------ MODULE Progress ------------------------------
(* Tracking of the distance to a target: the samples since the last reset    *)
(* with the time since the one before, the number of samples in a row        *)
(* without a trend, and the answers over the latest window of w samples.     *)
EXTENDS Base
NewP(w) == [w |-> IF w <= 0 THEN 10 ELSE w, d |-> <<>>, v |-> <<>>, stuck |-> {0}]
PN(p) == Len(p.d)
Last(q, w) == SubSeq(q, Max2(1, Len(q) - w + 1), Len(q))
\* least-squares trend of q is 2 * TNum / TDen per sample
RECURSIVE TNumR(_, _)
TNumR(q, k) == IF k = 0 THEN 0 ELSE (2 * (k - 1) - (Len(q) - 1)) * q[k] + TNumR(q, k - 1)
TNum(q) == TNumR(q, Len(q))
TDen(n) == (n * (n * n - 1)) \div 3
\* sum of |coefficients|: rounding of the samples by one unit moves TNum by at most this
TErr(n) == (n * n) \div 2
\* the trend compared with x units per sample: -1 below, 1 above, 0 too close to tell
Cmp(q, x) == LET a == 2 * TNum(q) - x * TDen(Len(q)) IN
             IF a > 2 * TErr(Len(q)) * Tol THEN 1 ELSE IF -a > 2 * TErr(Len(q)) * Tol THEN -1 ELSE 0
Thr == One \div 1000
Trendy(q) == Len(q) >= 3
\* {TRUE}, {FALSE} or both
Yes(c) == IF c = 0 THEN {TRUE, FALSE} ELSE {c = 1}
ConvSet(q) == IF ~Trendy(q) THEN {FALSE} ELSE Yes(0 - Cmp(q, 0 - Thr))
FlatSet(q) == {a /\ b : a \in Yes(Cmp(q, 0 - Thr)), b \in Yes(0 - Cmp(q, Thr))}
\* a sample at distance d, dt milliseconds after the one before
\* pace: -1 improves by more than a thousandth a second, 1 does not, 0 too close to tell
Pace(d0, d, dt) == IF dt = 0 THEN 1 ELSE LET a == (d - d0) * (1000000 \div One) + dt IN
                   IF a > Tol THEN 1 ELSE IF a < -Tol THEN -1 ELSE 0
Sample(p, d, dt) ==
  LET nd == Append(p.d, d) q == Last(nd, p.w)
      pc == IF PN(p) = 0 THEN 1 ELSE Pace(p.d[PN(p)], d, dt)
  IN [p EXCEPT !.d = nd, !.v = Append(@, pc),
               !.stuck = IF ~Trendy(q) THEN @
                         ELSE UNION {IF f THEN {s + 1 : s \in p.stuck} ELSE {0} : f \in FlatSet(q)}]
Forget(p) == NewP(p.w)
Converging(p) == ConvSet(Last(p.d, p.w))
StuckSet(p) == {s > 5 : s \in p.stuck}
Counts(p, S) == Cardinality({k \in Max2(1, PN(p) - p.w + 1)..PN(p) : p.v[k] \in S})
SwitchSet(p) == LET n == Len(Last(p.v, p.w)) IN
                IF n < 3 THEN {FALSE} ELSE {10 * (Counts(p, {1}) + x) > 7 * n : x \in 0..Counts(p, {0})}
\* the share of the oldest remembered distance that has been covered
ShareIs(r, d0, d) == IF d0 = 0 THEN r = One
                     ELSE IF d >= d0 THEN r = 0
                     ELSE LET a == (d0 - d) IN   \* r / One = a / d0
                          Abs(r - (a \div d0) * One - (((a % d0) * 1000) \div d0) * (One \div 1000)) <= (One \div 1000) + Tol
ProgressIs(r, p) == IF PN(p) = 0 THEN r = 0
                    ELSE \E k \in {x \in 1..PN(p) : x = 1 \/ (PN(p) - x + 1 <= 2 * p.w /\ PN(p) - x + 1 >= p.w)} :
                            ShareIs(r, p.d[k], p.d[PN(p)])
=============================================================================
