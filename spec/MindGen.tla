------------------------------ MODULE MindGen -------------------------------
(* Phase pairs at all multiples of an eighth turn with small displacements,  *)
(* for every strategy and rate; lists of options; blends.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Kind == IOEnv.KIND
Eighth == 0..8
Disp == {-1, 0, 1}
Strategies == {"nudge", "lock", "energy", "pulse"}
Rates == {0, 300, 1000}
Bs == {-500, 0, 300, 600}
Cs == {-100, 0, 100, 200}
Cases == IF Kind = "move" THEN [op: {"move"}, s: Strategies, c: Eighth, dc: Disp, g: Eighth, dg: Disp, r: Rates]
         ELSE [op: {"blend"}, c: Eighth, dc: Disp, g: Eighth, dg: Disp, w: {-100, 0, 250, 1000, 1200}]
              \cup [op: {"decide"}, b1: Bs, c1: Cs, b2: Bs, c2: Cs, b3: Bs, c3: {0, 100, 200}]
Init == hist \in {<<x>> : x \in Cases}
Next == Len(hist) = 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = <<hist[1], [op |-> "end"]>>
Spec == Init /\ [][Next]_hist
=============================================================================
