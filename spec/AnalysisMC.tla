----------------------------- MODULE AnalysisMC -----------------------------
(* A run raises, keeps or loses coherence until its iterations are used or   *)
(* the target is reached; it is then diagnosed.                              *)
EXTENDS Analysis, TLC
CONSTANTS Iter
VARIABLES ini, tgt, cur, n, stuck
vars == <<ini, tgt, cur, n, stuck>>
Init == ini \in 0..One /\ tgt \in 1..One /\ cur = ini /\ n = 0 /\ stuck = 0
Next == n < Iter /\ cur < tgt /\ n' = n + 1 /\ UNCHANGED <<ini, tgt>>
        /\ \E d \in {-1, 0, 1, 2} : cur' = (IF cur + d < 0 THEN 0 ELSE IF cur + d > One THEN One ELSE cur + d)
                                 /\ stuck' = IF cur' = cur THEN stuck + 1 ELSE stuck
Spec == Init /\ [][Next]_vars
D == Diagnoses(ini, cur, tgt, stuck, Iter)
OneDiagnosis == D # {} /\ (Slack = 0 => Cardinality(D) = 1)
SuccessIsReached == ("ok" \in D) = (cur >= tgt)
StuckIsNot == "stuck" \in D => cur < tgt /\ 3 * (stuck + 1) > Iter
LittleIsLittle == "little" \in D => cur - ini < One \div 10 + Slack
CloseIsClose == "close" \in D => tgt - cur < One \div 10 + Slack
\* better is never described by lesser words
Rises == \A c \in 0..(One - 1) : Rank(c) <= Rank(c + 1)
AllWords == {Rank(c) : c \in 0..One} = 0..4
Slower == \A k \in 0..(Iter - 1) : Pace(k, Iter) <= Pace(k + 1, Iter)
=============================================================================
