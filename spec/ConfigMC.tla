------------------------------ MODULE ConfigMC ------------------------------
(* Every small configuration: normalization gives a valid configuration, is  *)
(* idempotent, and leaves valid values alone.                                *)
EXTENDS Config, TLC
CONSTANTS Sizes
VARIABLES c, n, done
Neg == -1
Cfgs == [p: {<<x, y>> : x \in {Neg, 0, One, One + 1, NaN}, y \in {One}}, maxn: Neg..3, minn: Neg..3,
         energy: {Neg, 0, 1, NaN}, basin: {0, 1}, upd: {1}, mon: {1},
         cnt: {<<a, 0, b, w>> : a \in {Neg, 0}, b \in {Neg, 0, 2}, w \in {0, 3}}, limit: {0, 2}, batch: BOOLEAN]
D == [energy |-> 100, basin |-> 3, upd |-> 50, mon |-> 100]
Norm(x, m) == [p |-> [k \in 1..Len(x.p) |-> ClampP(x.p[k])], maxn |-> MaxN(x, m), minn |-> MinN(x, m),
               energy |-> Default(D.energy, x.energy), basin |-> Default(D.basin, x.basin),
               upd |-> Default(D.upd, x.upd), mon |-> Default(D.mon, x.mon),
               cnt |-> [k \in 1..Len(x.cnt) |-> IF k >= 3 /\ x.batch /\ x.cnt[k] <= 0 THEN 10 ELSE Max2(x.cnt[k], 0)],
               limit |-> x.limit, batch |-> x.batch]
Init == c \in Cfgs /\ n \in Sizes /\ done = FALSE
Next == ~done /\ done' = TRUE /\ n' = n /\ c' = IF n >= 1 THEN Norm(c, n) ELSE c
Spec == Init /\ [][Next]_<<c, n, done>>
\* validity and repairability are complementary, and repairing works
Repairs == ~Hopeless(c, n) => ValidSwarm(Norm(c, n), n) /\ NormalIs(c, n, D, Norm(c, n))
HopelessStays == Hopeless(c, n) /\ n >= 1 => ~ValidSwarm(Norm(c, n), n)
ValidNotHopeless == ValidSwarm(c, n) => ~Hopeless(c, n)
Idempotent == n >= 1 /\ ~Hopeless(c, n) => Norm(Norm(c, n), n) = Norm(c, n)
Untouched == ValidSwarm(c, n) => [Norm(c, n) EXCEPT !.cnt = c.cnt] = c
                                 /\ \A k \in 1..Len(c.cnt) : c.cnt[k] # 0 => Norm(c, n).cnt[k] = c.cnt[k]
=============================================================================
