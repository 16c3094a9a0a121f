------------------------------- MODULE Batch --------------------------------
(* The batch manager of the simulation and its totals.  Agents submit lists  *)
(* of tasks; lists that arrive within one collection window are put together *)
(* and cut into batches of at most Max tasks; every batch is counted once.   *)
EXTENDS Base
CONSTANTS Max, Cap            \* largest batch, least room of the queue

CeilDiv(a, b) == (a + b - 1) \div b
\* the sizes into which n collected tasks are cut
RECURSIVE Cut(_)
Cut(n) == IF n = 0 THEN <<>> ELSE IF n <= Max THEN <<n>> ELSE <<Max>> \o Cut(n - Max)

\* totals of a sequence of batches: calls, batches, prices in tenths of a cent
Price == 30                  \* one call costs 0.030
Totals(bs) == [calls |-> SumSeq(bs), batches |-> Len(bs), without |-> Price * SumSeq(bs), with |-> (Price \div 2) * Len(bs)]
Class(n) == IF n <= 10 THEN 1 ELSE IF n <= 25 THEN 2 ELSE IF n <= 50 THEN 3 ELSE IF n <= 75 THEN 4 ELSE 5
CountClass(bs, c) == Cardinality({k \in 1..Len(bs) : Class(bs[k]) = c})
Classes(bs) == [c \in 1..5 |-> CountClass(bs, c)]
ClassLo == <<1, 11, 26, 51, 76>>
ClassHi == <<10, 25, 50, 75, 100>>
\* could batches with these class counts hold this many calls?
Fits(d, calls) == /\ d[1] * ClassLo[1] + d[2] * ClassLo[2] + d[3] * ClassLo[3] + d[4] * ClassLo[4] + d[5] * ClassLo[5] <= calls
                  /\ d[1] * ClassHi[1] + d[2] * ClassHi[2] + d[3] * ClassHi[3] + d[4] * ClassHi[4] + d[5] * ClassHi[5] >= calls
=============================================================================
