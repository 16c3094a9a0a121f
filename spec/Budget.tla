------------------------------- MODULE Budget -------------------------------
(* A resource budget: an available amount between 0 and a maximum (C04).     *)
EXTENDS Base
NewBudget(m) == [av |-> Max2(0, m), max |-> Max2(0, m)]
Grant(b, x)   == IF x <= 0 THEN 0 ELSE Min2(x, b.av)
Request(b, x) == [b EXCEPT !.av = b.av - Grant(b, x)]
Release(b, x) == IF x <= 0 THEN b ELSE [b EXCEPT !.av = Min2(b.av + x, b.max)]
=============================================================================
