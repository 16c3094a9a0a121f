----------------------------- MODULE DisplayGen -----------------------------
(* Sequences of operations on a display: configurations, welcome screens,    *)
(* snapshots with phases on a lattice of 24ths of the circle, summaries.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
\* spread out, before the beat, after the beat, opposite, together
Phases == {<<0, 3, 6, 9, 12, 15, 18, 21>>, <<23, 22, 21, 20>>, <<1, 2, 3, 4>>, <<12, 11, 13, 14>>, <<0>>, <<5, 5, 5, 17>>}
Cfg == [op : {"cfg"}, g : 0..7, s : {0, 3}, p : {-1, 2, 5}]
Upd == [op : {"update"}, c : {20, 70, 95}, paused : BOOLEAN, dis : BOOLEAN, ph : Phases]
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF hist = <<>> THEN \E c \in Cfg : hist' = <<c>>
           ELSE IF Len(hist) = Depth - 1 THEN \E u \in Upd : hist' = Append(hist, u)
           ELSE hist' = Append(hist, [op |-> "welcome"]) \/ hist' = Append(hist, [op |-> "summary"])
                \/ (\E u \in Upd : hist' = Append(hist, u)) \/ (\E c \in Cfg : c.s = 0 /\ c.p = 2 /\ hist' = Append(hist, c))
        /\ (IF Len(hist') = Depth THEN PrintT(<<"T", ToJson(hist')>>) ELSE TRUE)
=============================================================================
