---------------------------- MODULE NeighborsGen ----------------------------
EXTENDS Neighbors, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Kind  == IOEnv.KIND
Ids == {0, 1, 2, 3}
Fills == {0, 1, 18, 19, 20, 23}
Caps == {1, 2, 3}
Init == IF Kind = "agent" THEN \E n \in Fills : hist = <<[op |-> "fill", n |-> n]>>
        ELSE \E c \in Caps : hist = <<[op |-> "cap", n |-> c]>>
OpsA == [op: {"connect", "disconnect", "mapstore", "replace"}, id: Ids]
OpsS == [op: {"store", "delete", "load"}, id: Ids] \cup [op: {"clear"}, id: {0}]
Next == IF Len(hist) <= Depth THEN \E o \in (IF Kind = "agent" THEN OpsA ELSE OpsS) : hist' = Append(hist, o)
        ELSE Len(hist) = Depth + 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [op |-> "end"])
Spec == Init /\ [][Next]_hist
=============================================================================
