---------------------------- MODULE AgentPoolGen -----------------------------
(* Takes, uses and returns of up to three agents at a time.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist, own
Depth == atoi(IOEnv.DEPTH)
Uses == {"set", "link", "many", "map", "ctx", "act", "drain", "mind", "mindless"}
Step(o) == CASE o.op = "take" -> Cardinality(own) < 3 /\ o.v \in 1..3 \ own /\ own' = own \cup {o.v}
             [] o.op = "give" -> o.v \in own /\ own' = own \ {o.v}
             [] o.op = "lend" -> own' = own
             [] OTHER -> o.v \in own /\ own' = own
\* only the lowest free place is taken: places are names, not agents
Low(o) == o.op = "take" => \A k \in 1..(o.v - 1) : k \in own
Ops == [op : {"take", "give"} \cup Uses, v : 1..2] \cup [op : {"lend"}, v : {0}]
Init == hist = <<>> /\ own = {}
Next == IF Len(hist) < Depth THEN \E o \in Ops : Low(o) /\ Step(o) /\ (hist = <<>> => o.op \in {"take", "lend"}) /\ hist' = Append(hist, o)
        ELSE /\ Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>)
             /\ hist' = Append(hist, [op |-> "end", v |-> 0]) /\ own' = own
Spec == Init /\ [][Next]_<<hist, own>>
=============================================================================
