----------------------------- MODULE RunnerGen ------------------------------
(* Sequences of controls by kind: what is selected and which key is used is  *)
(* chosen by the harness.                                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Live == {"pause", "resume", "reset", "disrupt", "current", "junk"}
End == {"quit", "other"}
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].k \notin End)
        /\ \E k \in Live \cup End : hist' = Append(hist, [k |-> k])
        /\ (IF Len(hist') = Depth \/ hist'[Len(hist')].k \in End THEN PrintT(<<"T", ToJson(hist')>>) ELSE TRUE)
=============================================================================
