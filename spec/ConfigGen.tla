----------------------------- MODULE ConfigGen ------------------------------
(* Pairs of deviations from a valid configuration, for every small size: the *)
(* interactions between fields.                                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Fields == {"p1", "p2", "p3", "p4", "p5", "p6", "maxn", "minn", "energy", "basin", "upd", "mon", "c1", "c2", "c3", "c4", "limit"}
\* how a field deviates: just below, at, just above its lower limit, at and above its upper limit, not a number
Kinds == {"lowm", "low", "lowp", "high", "highp", "nan"}
Sizes == {0, 1, 2, 3, 7, 150}
Init == \E n \in Sizes, b \in {0, 1} : hist = <<[f |-> "size", k |-> "", n |-> n, b |-> b]>>
Next == \/ /\ Len(hist) < 3
           /\ \E f \in Fields, k \in Kinds : f # hist[Len(hist)].f /\ hist' = Append(hist, [f |-> f, k |-> k, n |-> 0, b |-> 0])
        \/ /\ Len(hist) \in {1, 2, 3} /\ PrintT(<<"T", ToJson(hist)>>)
           /\ hist' = Append(hist \o <<hist[1], hist[1]>>, hist[1])
Spec == Init /\ [][Next]_hist
=============================================================================
