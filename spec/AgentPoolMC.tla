---------------------------- MODULE AgentPoolMC -----------------------------
(* Owners take, dirty and return agents, one step at a time in every order;   *)
(* the store may lose idle agents at any time.  The counters are kept as the  *)
(* code keeps them, the set-based facts are what they must agree with.        *)
EXTENDS AgentPool
CONSTANTS Owners, MaxA, MaxT
VARIABLES s, store, dirty, holds, phase, cnt
vars == <<s, store, dirty, holds, phase, cnt>>
\* phase[o]: "idle", "got" (chosen, not yet cleaned), "has", "back" (cleared, not yet stored)
Init == /\ s = [own |-> {}, idle |-> {}, takes |-> 0, gives |-> 0, news |-> 0, all |-> {}]
        /\ store = {} /\ dirty = {} /\ holds = [o \in Owners |-> 0] /\ phase = [o \in Owners |-> "idle"]
        /\ cnt = [gets |-> 0, puts |-> 0, news |-> 0]
Free(o) == phase[o] = "idle"
Pick(o) == /\ Free(o) /\ cnt.gets < MaxT
           /\ \/ \E a \in store : holds' = [holds EXCEPT ![o] = a] /\ store' = store \ {a} /\ cnt' = [cnt EXCEPT !.gets = @ + 1] /\ s' = Take(s, a)
              \/ /\ Cardinality(s.all) < MaxA
                 /\ LET a == Cardinality(s.all) + 1 IN holds' = [holds EXCEPT ![o] = a] /\ s' = Take(s, a)
                 /\ cnt' = [cnt EXCEPT !.gets = @ + 1, !.news = @ + 1] /\ UNCHANGED store
           /\ phase' = [phase EXCEPT ![o] = "got"] /\ UNCHANGED dirty
Wash(o) == phase[o] = "got" /\ dirty' = dirty \ {holds[o]} /\ phase' = [phase EXCEPT ![o] = "has"] /\ UNCHANGED <<s, store, holds, cnt>>
Use(o) == phase[o] = "has" /\ dirty' = dirty \cup {holds[o]} /\ UNCHANGED <<s, store, holds, phase, cnt>>
Back(o) == phase[o] = "has" /\ phase' = [phase EXCEPT ![o] = "back"] /\ UNCHANGED <<s, store, dirty, holds, cnt>>
Put(o) == /\ phase[o] = "back" /\ store' = store \cup {holds[o]} /\ s' = Give(s, holds[o])
          /\ cnt' = [cnt EXCEPT !.puts = @ + 1] /\ holds' = [holds EXCEPT ![o] = 0] /\ phase' = [phase EXCEPT ![o] = "idle"] /\ UNCHANGED dirty
Lose == \E a \in store : store' = store \ {a} /\ UNCHANGED <<s, dirty, holds, phase, cnt>>
Next == (\E o \in Owners : Pick(o) \/ Wash(o) \/ Use(o) \/ Back(o) \/ Put(o)) \/ Lose
Spec == Init /\ [][Next]_vars
OneOwner == \A o, p \in Owners : o # p /\ holds[o] # 0 => holds[o] # holds[p]
CleanOnTake == [][\A o \in Owners : phase[o] = "got" /\ phase'[o] = "has" => holds[o] \notin dirty']_vars
Counters == CountersOK(s, [gets |-> cnt.gets, puts |-> cnt.puts, news |-> cnt.news, inuse |-> cnt.gets - cnt.puts])
InUse == s.takes - s.gives = Cardinality(s.own)
=============================================================================
