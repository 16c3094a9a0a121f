------------------------------ MODULE BasinGen ------------------------------
(* Targets and states at eighths of a turn, radii at eighths (so that states *)
(* lie exactly on the edge), with small displacements.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Cases == [op: {"ask"}, t: 0..7, p: 0..7, dp: {-1, 0, 1}, r: 0..5, s: {-500, 0, 400, 1000, 1500}, f: {0, 50, 100}]
Init == hist \in {<<x>> : x \in Cases}
Next == Len(hist) = 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = <<hist[1], [op |-> "end"]>>
Spec == Init /\ [][Next]_hist
=============================================================================
