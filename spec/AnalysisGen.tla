---------------------------- MODULE AnalysisGen -----------------------------
(* Runs with coherences at twentieths and every count of stuck iterations.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
G == {0, 1, 2, 5, 9, 10, 11, 12, 13, 14, 15, 18, 20}
Cases == [op: {"diag"}, ini: G, fin: G, tgt: G, stuck: {0, 2, 3, 4}, max: {9, 10, 11, 12}]
Init == hist \in {<<x>> : x \in Cases}
Next == Len(hist) = 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = <<hist[1], [op |-> "end"]>>
Spec == Init /\ [][Next]_hist
=============================================================================
