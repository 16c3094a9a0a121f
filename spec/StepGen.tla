------------------------------ MODULE StepGen -------------------------------
(* Arrangements of four groups of agents on eighths of a turn (up to         *)
(* rotation of the groups), with every goal phase, targets on both sides of  *)
(* the thresholds, and frequencies around the goal's.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Cases == [op: {"upd"}, ph: {q \in [1..4 -> 0..7] : Sorted(q)}, g: {0, 1, 3, 4, 6}, t: {20, 45, 70, 90}, f: {250, 100, 300}]
Init == hist \in {<<x>> : x \in Cases}
Next == Len(hist) = 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = <<hist[1], [op |-> "end"]>>
Spec == Init /\ [][Next]_hist
=============================================================================
