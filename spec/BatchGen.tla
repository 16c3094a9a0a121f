------------------------------ MODULE BatchGen ------------------------------
(* Sequences of calls on the batch manager (KIND mgr) or the totals (met).   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Mgr == [op: {"submit"}, v: {1, 10, 11, 100, 101, 230}] \cup [op: {"start", "settle", "reset", "stop"}, v: {0}] \cup [op: {"fill"}, v: {99, 100, 130}]
Met == [op: {"batch"}, v: {1, 10, 11, 25, 26, 50, 51, 75, 76, 100}] \cup [op: {"coh"}, v: {0, 500000, 699999, 700000, 1000000}] \cup [op: {"reset", "wait"}, v: {0}]
Ops == IF IOEnv.KIND = "mgr" THEN Mgr ELSE Met
\* a history the manager can be driven through: no empty waiting, one start at a time
Running == LET z == {k \in 1..Len(hist) : hist[k].op \in {"start", "stop"}} IN
           z # {} /\ hist[CHOOSE k \in z : \A j \in z : j <= k].op = "start"
Sensible(o) == CASE o.op = "start" -> ~Running
                 [] o.op \in {"stop"} -> Running
                 [] o.op = "settle" -> Running /\ hist[Len(hist)].op # "settle"
                 [] o.op = "reset" -> hist # <<>>
                 [] o.op = "fill" -> ~\E k \in 1..Len(hist) : hist[k].op = "fill"
                 [] OTHER -> TRUE
Init == hist = <<>>
Next == IF Len(hist) < Depth THEN \E o \in Ops : Sensible(o) /\ hist' = Append(hist, o)
        ELSE Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [op |-> "end", v |-> 0])
Spec == Init /\ [][Next]_hist
=============================================================================
