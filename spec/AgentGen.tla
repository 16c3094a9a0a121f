------------------------------ MODULE AgentGen ------------------------------
(* Operation sequences for one agent, printed as JSON for the harness.       *)
(* Values are abstract indices; the harness maps them to concrete floats.    *)
EXTENDS Agent, TLC, Json, IOUtils
CONSTANTS MaxEn, Hi
VARIABLES a, hist
Depth == atoi(IOEnv.DEPTH)
Init == a = [ph |-> 0, goal |-> 0, en |-> MaxEn, fr |-> 1, inf |-> 0, stub |-> One, bud |-> MaxEn] /\ hist = <<>>
DoSet == \E op \in Setters, x \in {-Hi, -1, 0, 1, Hi} :
           /\ a' = Set(a, op, x)
           /\ hist' = Append(hist, [op |-> op, x |-> x])
DoAct == \E k \in Kinds \cup {"bogus"}, v \in {-1, 3}, c \in {0, 1, MaxEn, MaxEn + 1} :
           /\ a' = Act(a, k, v, c)
           /\ hist' = Append(hist, [op |-> "act", kind |-> k, v |-> v, c |-> c])
DoCtx == \E n \in 0..2 : a' = a /\ hist' = Append(hist, [op |-> "ctx", n |-> n])
Fin == Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [op |-> "end"]) /\ a' = a
Next == IF Len(hist) < Depth THEN DoSet \/ DoAct \/ DoCtx ELSE Fin
Spec == Init /\ [][Next]_<<a, hist>>
=============================================================================
