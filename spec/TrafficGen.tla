---------------------------- MODULE TrafficGen ------------------------------
(* Sequences of controls over a workload that is making tasks.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Ops == {"pause", "resume", "reset", "near", "far", "pass"}
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Ops : hist' = Append(hist, [op |-> k])
        /\ (IF Len(hist') = Depth THEN PrintT(<<"T", ToJson(hist')>>) ELSE TRUE)
=============================================================================
