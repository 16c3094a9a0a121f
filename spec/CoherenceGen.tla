---------------------------- MODULE CoherenceGen ----------------------------
(* Sets of phases on the lattice of twelfths with turns added and weights.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
Dirs == {0, 1, 3, 5, 6, 7, 9, 11}
Init == hist = <<>>
Next == IF Len(hist) < Depth THEN \E d \in Dirs, t \in {0, 3}, w \in {0, 1, 3} : hist' = Append(hist, [d |-> d, t |-> t, w |-> w])
        ELSE Len(hist) = Depth /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = Append(hist, [d |-> 0, t |-> 0, w |-> 0])
Spec == Init /\ [][Next]_hist
=============================================================================
