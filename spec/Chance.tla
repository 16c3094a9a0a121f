------------------------------- MODULE Chance -------------------------------
(* Random draws and what depends on them.                                    *)
EXTENDS Integers, Sequences, FiniteSets
AbsC(x) == IF x < 0 THEN -x ELSE x
\* counts of draws per class, with the same number expected in each: within
\* eight standard deviations
Even(counts, each) == LET root == CHOOSE r \in 0..each : r * r <= each /\ (r + 1) * (r + 1) > each
                      IN  \A k \in 1..Len(counts) : AbsC(counts[k] - each) <= 8 * root
\* percent as a share in [0, 100]
Share100(p) == IF p < 0 THEN 0 ELSE IF p > 100 THEN 100 ELSE p
\* an agent that is not too stubborn to consider a proposal takes it with its confidence times the acceptance; in 1/1000000
Takes(stub, conf, acc) == (100 - Share100(stub)) * conf * acc
=============================================================================
