------------------------------ MODULE ChanceMC ------------------------------
(* Drawing a number below n from a source of M equally likely values by      *)
(* rejection; and a proposal as two independent draws.                       *)
EXTENDS Chance, TLC
CONSTANTS M, K
VARIABLES n, drawn, tries
vars == <<n, drawn, tries>>
Most == (M \div n) * n
Init == n \in 1..M /\ drawn = -1 /\ tries = 0
Draw == drawn = -1 /\ tries < 3 /\ UNCHANGED n /\ tries' = tries + 1 /\ \E v \in 0..(M - 1) : drawn' = IF v < Most THEN v % n ELSE -1
Spec == Init /\ [][Draw]_vars
InRange == drawn = -1 \/ (drawn >= 0 /\ drawn < n)
\* every number comes from equally many values of the source, and more than half of them are used
Fair == \A a, b \in 0..(n - 1) : Cardinality({v \in 0..(M - 1) : v < Most /\ v % n = a}) = Cardinality({v \in 0..(M - 1) : v < Most /\ v % n = b})
Likely == 2 * Most > M
\* of all pairs of draws in K steps each, so many consider and take a proposal
TakesAsSaid == \A s, c \in 0..K : Cardinality({x \in (0..(K - 1)) \X (0..(K - 1)) : ~(x[1] < s) /\ x[2] < c}) = (K - s) * c
=============================================================================
