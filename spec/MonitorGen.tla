---------------------------- MODULE MonitorGen ------------------------------
(* Sequences of measurements around the threshold, resets and waiting.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Ops == [op: {"rec"}, v: {0, 699999, 700000, 700001, 1000000}] \cup [op: {"reset"}, v: {0}] \cup [op: {"wait"}, v: {30}]
Init == hist = <<>>
Next == IF Len(hist) < Depth THEN \E o \in Ops : hist' = Append(hist, o)
        ELSE Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [op |-> "end", v |-> 0])
Spec == Init /\ [][Next]_hist
=============================================================================
