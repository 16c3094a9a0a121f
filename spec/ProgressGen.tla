---------------------------- MODULE ProgressGen -----------------------------
(* Sequences of samples (coherence of the current pattern in 1/10000, time   *)
(* in ms since the last one) and resets for a small window.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Ops == [op: {"rec"}, c: {1000, 1030, 1036, 9000}, dt: {0, 1000}] \cup [op: {"reset"}, c: {0}, dt: {0}]
Init == hist = <<>>
Next == IF Len(hist) < Depth THEN \E o \in Ops : hist' = Append(hist, o)
        ELSE Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [op |-> "end", c |-> 0, dt |-> 0])
Spec == Init /\ [][Next]_hist
=============================================================================
