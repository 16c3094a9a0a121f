------------------------------ MODULE Analysis ------------------------------
(* What is said about a finished run: whether it succeeded, what else stood  *)
(* out, and in which words.  Coherences are in units of 1 / One.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS One, Slack
AbsA(x) == IF x < 0 THEN -x ELSE x
\* a difference within Slack of a tenth may be judged either way
Below(x) == {b \in BOOLEAN : IF b THEN x < One \div 10 + Slack ELSE x >= One \div 10 - Slack}
Diagnoses(ini, fin, tgt, stuck, max) ==
  IF fin >= tgt THEN {"ok"}
  ELSE IF stuck > max \div 3 THEN {"stuck"}
  ELSE {IF l THEN "little" ELSE IF c THEN "close" ELSE "failed" : l \in Below(fin - ini), c \in Below(AbsA(tgt - fin))}
Fifth == One \div 5
\* place of a coherence on the scale of five
Rank(c) == CASE c < Fifth -> 0 [] c < 2 * Fifth -> 1 [] c < 3 * Fifth -> 2 [] c < 4 * Fifth -> 3 [] OTHER -> 4
\* place of a run's length among what it was allowed
Pace(n, max) == CASE 10 * n < 3 * max -> 0 [] 10 * n < 6 * max -> 1 [] 10 * n < 9 * max -> 2 [] OTHER -> 3
=============================================================================
