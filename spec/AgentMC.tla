------------------------------ MODULE AgentMC -------------------------------
(* Exhaustive exploration of one agent with small constants.                 *)
EXTENDS Agent
CONSTANTS MaxEn, Hi
VARIABLES a
Vals == -Hi..Hi

Init == a \in [ph: {0, TwoPi - 1}, goal: {0}, en: {0, MaxEn}, fr: {1}, inf: {0, One}, stub: {One}, bud: {0, MaxEn}]
DoSet == \E op \in Setters, x \in Vals : a' = Set(a, op, IF op = "SetEnergy" THEN Min2(x, MaxEn) ELSE x)
DoAct == \E k \in Kinds \cup {"bogus"}, v \in Vals, c \in 0..MaxEn+1 : a' = Act(a, k, v, c)
Next == DoSet \/ DoAct
Spec == Init /\ [][Next]_a

\* C01
TypeOK == InRange(a)
OneQuantity == \A op \in Setters, x \in Vals : \A f \in Fields \ {Target(op)} : Set(a, op, x)[f] = a[f]
\* C02
AllOrNothing == \A k \in Kinds \cup {"bogus"}, v \in Vals, c \in 0..MaxEn+1 :
   LET b == Act(a, k, v, c) IN
   IF Outcome(a, k, c) # "ok" THEN b = a
   ELSE /\ b.en = a.en - c /\ b.en >= 0
        /\ Wrap(b.ph - a.ph) = (IF k = "maintain" THEN 0 ELSE Wrap(v))
        /\ b.bud = Max2(0, a.bud - c)
        /\ \A f \in {"goal", "fr", "inf", "stub"} : b[f] = a[f]
=============================================================================
