----------------------------- MODULE AgentConc ------------------------------
(* The design of concurrent agent updates: every operation reads the agent's *)
(* record, computes the next one and publishes it only if the record has not *)
(* changed since (otherwise it starts over).  TLC checks all interleavings:  *)
(* every outcome is that of some one-at-a-time order (C03), and actions      *)
(* never overspend.  RetryOnConflict = FALSE is the broken design (one       *)
(* attempt, publish unconditionally) and is expected to fail.                *)
EXTENDS Agent, TLC
CONSTANTS Progs, RetryOnConflict
VARIABLES rec, ver, pc, k, loc, locv, out, done
vars == <<rec, ver, pc, k, loc, locv, out, done>>
Thr == 1..Len(Progs)
Start == [ph |-> 0, goal |-> 0, en |-> 2, fr |-> 0, inf |-> 0, stub |-> 0, bud |-> 0]
OpPost(a, o) == IF o.op = "act" THEN [Act(a, o.kind, o.v, o.c) EXCEPT !.bud = 0] ELSE Set(a, o.op, o.x)
OpRes(a, o)  == IF o.op = "act" THEN Outcome(a, o.kind, o.c) ELSE "ok"
Init == /\ rec = Start /\ ver = 0
        /\ pc = [n \in Thr |-> "load"] /\ k = [n \in Thr |-> 1]
        /\ loc = [n \in Thr |-> Start] /\ locv = [n \in Thr |-> 0]
        /\ out = [n \in Thr |-> <<>>] /\ done = [n \in Thr |-> FALSE]
Load(n) == /\ pc[n] = "load" /\ ~done[n]
           /\ loc' = [loc EXCEPT ![n] = rec] /\ locv' = [locv EXCEPT ![n] = ver]
           /\ pc' = [pc EXCEPT ![n] = "cas"]
           /\ UNCHANGED <<rec, ver, k, out, done>>
Cas(n) == /\ pc[n] = "cas"
          /\ LET o == Progs[n][k[n]] IN
             IF RetryOnConflict /\ locv[n] # ver
             THEN /\ pc' = [pc EXCEPT ![n] = "load"] /\ UNCHANGED <<rec, ver, k, out, done>>
             ELSE /\ rec' = OpPost(loc[n], o) /\ ver' = ver + 1
                  /\ out' = [out EXCEPT ![n] = Append(@, OpRes(loc[n], o))]
                  /\ IF k[n] = Len(Progs[n]) THEN done' = [done EXCEPT ![n] = TRUE] /\ k' = k
                     ELSE k' = [k EXCEPT ![n] = @ + 1] /\ done' = done
                  /\ pc' = [pc EXCEPT ![n] = "load"]
          /\ UNCHANGED <<loc, locv>>
Next == \E n \in Thr : Load(n) \/ Cas(n)
Spec == Init /\ [][Next]_vars /\ \A n \in Thr : WF_vars(Load(n) \/ Cas(n))
\* some one-at-a-time order gives the outcome
RECURSIVE Seq1(_, _)
Seq1(a, pos) == IF \A n \in Thr : pos[n] = Len(Progs[n]) THEN a = rec
                ELSE \E n \in Thr : pos[n] < Len(Progs[n])
                        /\ OpRes(a, Progs[n][pos[n] + 1]) = out[n][pos[n] + 1]
                        /\ Seq1(OpPost(a, Progs[n][pos[n] + 1]), [pos EXCEPT ![n] = @ + 1])
AllDone == \A n \in Thr : done[n]
Linearizable == AllDone => Seq1(Start, [n \in Thr |-> 0])
NoOverspend  == rec.en >= 0
EventuallyDone == <>AllDone
\* programs
A(kd, v, c) == [op |-> "act", kind |-> kd, v |-> v, c |-> c]
S(o, x)     == [op |-> o, x |-> x]
ProgsA == << <<A("pulse", 1, 2), S("SetEnergy", 1)>>, <<A("pulse", 1, 1), S("SetPhase", 3)>>, <<A("maintain", 0, 2), A("pulse", 2, 1)>> >>
ProgsB == << <<S("SetPhase", 3), S("SetLocalGoal", 1)>>, <<S("SetEnergy", 1), A("adjust_phase", -1, 1)>>, <<S("SetFrequency", 2), S("SetInfluence", 1)>> >>
=============================================================================
