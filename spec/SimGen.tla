------------------------------- MODULE SimGen -------------------------------
(* Control actions in any order around one start.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Has(x) == \E k \in 1..Len(hist) : hist[k].op = x
Ops == [op: {"start", "pause", "resume", "reset", "disrupt", "look"}]
\* every history starts the simulation by its second action
Sensible(o) == /\ (Len(hist) = 1 /\ ~Has("start") => o.op = "start") /\ (o.op = "start" => ~Has("start"))
               /\ (hist # <<>> => ~(o.op = "look" /\ hist[Len(hist)].op = "look"))
               /\ (hist = <<>> => o.op \in {"start", "pause"})
Init == hist = <<>>
Next == IF Len(hist) < Depth THEN \E o \in Ops : Sensible(o) /\ hist' = Append(hist, o)
        ELSE Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [op |-> "end"])
Spec == Init /\ [][Next]_hist
=============================================================================
