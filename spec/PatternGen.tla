------------------------------ MODULE PatternGen -----------------------------
(* Pairs of patterns around all thresholds; sequences to detect and fill;     *)
(* templates near and far.  Phases are multiples of a sixteenth of a turn     *)
(* with a displacement, periods permille of the target's.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Kind == IOEnv.KIND
Sixteenth == 0..16
Disp == {-101, -99, -1, 0, 1, 99, 101}     \* milliradians
Perm == {0, 500, 940, 951, 1000, 1049, 1060, 2000, 4000}
Cohs == {0, 440, 500, 545, 555, 1000}
Cases == CASE Kind = "pair" -> [op : {"pair"}, c : Sixteenth, d : Disp, f : Perm, h : Cohs, t : {0, 5, 12}]
           [] Kind = "seq" -> [op : {"seq"}, a : Sixteenth, b : Sixteenth, n : 0..5, s : -1..2, e : 0..6]
           [] Kind = "sim" -> [op : {"sim"}, a : 0..4, b : 0..4, la : 0..3, lb : 0..3, fa : {0, 1, 2}, fb : {0, 1, 2}]
Init == hist \in {<<x>> : x \in Cases}
Next == Len(hist) = 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = <<hist[1], [op |-> "end"]>>
Spec == Init /\ [][Next]_hist
=============================================================================
