----------------------------- MODULE WorkPoolGen ------------------------------
(* Submissions, jobs let go in any order, one stop.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Count(x) == Cardinality({k \in 1..Len(hist) : hist[k].op = x})
Gone == {hist[k].v : k \in {k \in 1..Len(hist) : hist[k].op = "go"}}
Ops == [op : {"new"}, v : 1..3] \cup [op : {"job"}, v : {0}] \cup [op : {"go"}, v : 1..5] \cup [op : {"stop"}, v : {0}]
Sensible(o) == CASE o.op = "new" -> hist = <<>>
                 [] o.op = "job" -> hist # <<>> /\ Count("job") < 5 /\ Count("stop") = 0
                 [] o.op = "go" -> o.v <= Count("job") /\ o.v \notin Gone
                 [] o.op = "stop" -> Count("job") > 0 /\ Count("stop") = 0
Init == hist = <<>>
Next == IF Len(hist) < Depth /\ \E o \in Ops : Sensible(o) THEN \E o \in Ops : Sensible(o) /\ hist' = Append(hist, o)
        ELSE /\ (hist = <<>> \/ hist[Len(hist)].op # "end") /\ PrintT(<<"T", ToJson(hist)>>)
             /\ hist' = Append(hist, [op |-> "end", v |-> 0])
Spec == Init /\ [][Next]_hist
=============================================================================
