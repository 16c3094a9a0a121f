------------------------------ MODULE UsableMC ------------------------------
(* All goals, all orders of all subsets of the traits, with the size applied *)
(* at any point: multiplications with clamps never leave the valid ranges.   *)
(* (Unclamped, the throughput trait after speed does: see Clamped.)          *)
EXTENDS Usable, TLC
CONSTANTS Clamped
VARIABLES g, left, sized
vars == <<g, left, sized>>
\* <<scale, convergence goal, low, high variation, chance, interval in us, affected, activation, iterations>>, in 1/10000
Bases == {<<7500, 9000, 500, 1500, 1000, 200000, 500, 500, 1500000>>, <<5500, 3000, 2500, 4500, 2500, 50000, 1500, 1500, 1000000>>,
          <<8000, 9500, 300, 1000, 500, 100000, 300, 300, 2500000>>, <<8500, 7500, 1000, 2000, 1200, 25000, 800, 1000, 800000>>,
          <<4000, 7000, 800, 1800, 800, 250000, 500, 500, 3000000>>, <<7000, 8000, 800, 1600, 1000, 100000, 600, 800, 1800000>>,
          <<6000, 6500, 2000, 4000, 2000, 75000, 1500, 2000, 3500000>>, <<4500, 5000, 3000, 5000, 3000, 50000, 2000, 2500, 1000000>>,
          <<6500, 8500, 1500, 3000, 1500, 100000, 1000, 1000, 2000000>>}
Times(x, pc) == (x * pc) \div 100
Cap(x) == IF Clamped THEN Min2(One, x) ELSE x
Tune(x, tr) ==
  CASE tr = "stability"  -> [x EXCEPT ![1] = Times(@, 60), ![3] = Times(@, 120), ![4] = Times(@, 130), ![6] = Times(@, 150)]
    [] tr = "speed"      -> [x EXCEPT ![1] = Min2(One, Times(@, 130)), ![6] = Times(@, 50), ![9] = Times(@, 70)]
    [] tr = "efficiency" -> [x EXCEPT ![6] = Times(@, 200), ![5] = Times(@, 50), ![7] = Times(@, 50)]
    [] tr = "throughput" -> [x EXCEPT ![1] = Cap(Times(@, 120)), ![6] = Times(@, 70)]
    [] tr = "resilience" -> [x EXCEPT ![3] = Times(@, 130), ![4] = Times(@, 140), ![7] = Times(@, 150), ![8] = Times(@, 180)]
    [] tr = "precision"  -> [x EXCEPT ![2] = Min2(9800, Times(@, 110))]
ForSize(x, s) ==
  CASE s = "tiny"   -> [x EXCEPT ![3] = 500, ![4] = 1000, ![6] = 20000]
    [] s = "small"  -> [x EXCEPT ![3] = Times(@, 80), ![4] = Times(@, 90), ![6] = Min2(50000, (@ \div 1000) * 1000)]
    [] s = "medium" -> x
    [] s = "large"  -> [x EXCEPT ![3] = Times(@, 120), ![4] = Times(@, 130), ![6] = Max2(150000, (@ \div 1000) * 1000), ![9] = Times(@, 150)]
    [] s = "huge"   -> [x EXCEPT ![3] = Times(@, 150), ![4] = Times(@, 180), ![6] = Max2(200000, (@ \div 1000) * 1000), ![9] = Times(@, 200), ![7] = Min2(500, @)]
Init == g \in Bases /\ left = {"stability", "speed", "efficiency", "throughput", "resilience", "precision"} /\ sized = FALSE
Next == \/ \E tr \in left : g' = Tune(g, tr) /\ left' = left \ {tr} /\ UNCHANGED sized
        \/ ~sized /\ sized' = TRUE /\ UNCHANGED left /\ \E k \in 1..5 : g' = ForSize(g, Scales[k])
Spec == Init /\ [][Next]_vars
Rec(x) == [scale |-> x[1], conv |-> x[2], mod |-> 1, high |-> 2, very |-> 3, lo |-> x[3], hi |-> x[4], chance |-> x[5], upd |-> x[6],
           expl |-> 1, aff |-> x[7], act |-> x[8], iter |-> x[9], tol |-> <<0, 0, 0>>]
AlwaysWorkable == Workable(Rec(g))
ScaleFits == \A n \in 1..60 : LET s == ScaleOf(n) IN n <= Count[s] /\ \A k \in 1..5 : n <= Count[Scales[k]] => Count[s] <= Count[Scales[k]]
=============================================================================
