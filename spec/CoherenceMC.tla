---------------------------- MODULE CoherenceMC ----------------------------
(* The order parameter on the lattice of twelfths of a turn, in exact        *)
(* arithmetic: a coordinate <<a, b>> stands for (a + b*sqrt 3) / 2.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxW
VARIABLES ph, ws
Dirs == 0..11
Cos == <<<<2,0>>, <<0,1>>, <<1,0>>, <<0,0>>, <<-1,0>>, <<0,-1>>, <<-2,0>>, <<0,-1>>, <<-1,0>>, <<0,0>>, <<1,0>>, <<0,1>>>>
C(d) == Cos[(d % 12) + 1]
S(d) == Cos[((d + 9) % 12) + 1]
RECURSIVE Sum(_, _, _, _)
Sum(F(_), p, w, k) == IF k = 0 THEN <<0, 0>>
  ELSE LET r == Sum(F, p, w, k - 1) IN <<r[1] + w[k] * F(p[k])[1], r[2] + w[k] * F(p[k])[2]>>
\* four times the squared length of the weighted sum, as <<a, b>> = a + b*sqrt 3
Len4(p, w) == LET c == Sum(C, p, w, Len(p))  s == Sum(S, p, w, Len(p)) IN
  <<c[1]*c[1] + 3*c[2]*c[2] + s[1]*s[1] + 3*s[2]*s[2], 2*(c[1]*c[2] + s[1]*s[2])>>
\* sign of a + b*sqrt 3
Sign(x) == LET a == x[1]  b == x[2]  d == a*a - 3*b*b IN
  IF a >= 0 /\ b >= 0 THEN (IF a = 0 /\ b = 0 THEN 0 ELSE 1)
  ELSE IF a <= 0 /\ b <= 0 THEN -1
  ELSE IF a > 0 THEN (IF d > 0 THEN 1 ELSE IF d = 0 THEN 0 ELSE -1)
  ELSE (IF d < 0 THEN 1 ELSE IF d = 0 THEN 0 ELSE -1)
RECURSIVE SumN(_)
SumN(w) == IF w = <<>> THEN 0 ELSE Head(w) + SumN(Tail(w))
Rot(p, r) == [k \in 1..Len(p) |-> (p[k] + r) % 12]
Rev(p) == [k \in 1..Len(p) |-> p[Len(p) + 1 - k]]
Cyc(p) == IF p = <<>> THEN p ELSE Append(Tail(p), Head(p))
Init == ph = <<>> /\ ws = <<>>
Next == Len(ph) < N /\ \E d \in Dirs, w \in 0..MaxW : ph' = Append(ph, d) /\ ws' = Append(ws, w)
Spec == Init /\ [][Next]_<<ph, ws>>
Ones == [k \in 1..Len(ph) |-> 1]
InUnit == LET q == Len4(ph, ws)  W == SumN(ws) IN Sign(q) >= 0 /\ Sign(<<4*W*W - q[1], -q[2]>>) >= 0
OneIffEqual == LET q == Len4(ph, ws)  W == SumN(ws)
                   moved == {ph[k] : k \in {j \in 1..Len(ph) : ws[j] > 0}}
               IN q = <<4*W*W, 0>> <=> Cardinality(moved) <= 1
RotInv == \A r \in Dirs : Len4(Rot(ph, r), ws) = Len4(ph, ws)
OrderInv == Len4(Rev(ph), Rev(ws)) = Len4(ph, ws) /\ Len4(Cyc(ph), Cyc(ws)) = Len4(ph, ws)
\* distance to a target: 1 - mean/Pi is 1 iff all are there and 0 iff all are opposite
Dist(a, b) == LET d == (a - b) % 12 IN IF d > 6 THEN 12 - d ELSE d
ConvSound == \A t \in Dirs : LET D == SumN([k \in 1..Len(ph) |-> Dist(ph[k], t)]) IN
  /\ D >= 0 /\ D <= 6 * Len(ph)
  /\ (D = 0 <=> \A k \in 1..Len(ph) : ph[k] = t)
  /\ \A r \in Dirs : SumN([k \in 1..Len(ph) |-> Dist((ph[k] + r) % 12, (t + r) % 12)]) = D
=============================================================================
