---------------------------- MODULE MonitorLock -----------------------------
(* The read-write lock of the monitors as Go has it: a waiting writer holds  *)
(* off new readers.  Reports take the read lock Depth times, nested.  With   *)
(* Depth = 1 no schedule deadlocks (with Depth = 2 one does).                *)
EXTENDS Integers, FiniteSets
CONSTANTS Readers, Writers, Depth, Rounds
VARIABLES held, waiting, writing, todo, log, seen
vars == <<held, waiting, writing, todo, log, seen>>
Procs == Readers \cup Writers
Init == /\ held = [r \in Readers |-> 0] /\ waiting = {} /\ writing = {}
        /\ todo = [p \in Procs |-> Rounds] /\ log = 0 /\ seen = [r \in Readers |-> 0]
RLock(r) == /\ todo[r] > 0 /\ held[r] >= 0 /\ held[r] < Depth /\ waiting = {} /\ writing = {}
            /\ held' = [held EXCEPT ![r] = @ + 1]
            /\ seen' = IF held[r] = 0 THEN [seen EXCEPT ![r] = log] ELSE seen
            /\ UNCHANGED <<waiting, writing, todo, log>>
\* the whole report is read under the lock
RUnlock(r) == /\ held[r] = Depth /\ held' = [held EXCEPT ![r] = 0] /\ todo' = [todo EXCEPT ![r] = @ - 1]
              /\ UNCHANGED <<waiting, writing, log, seen>>
Want(w) == /\ todo[w] > 0 /\ w \notin waiting \cup writing /\ waiting' = waiting \cup {w}
           /\ UNCHANGED <<held, writing, todo, log, seen>>
Lock(w) == /\ w \in waiting /\ writing = {} /\ \A r \in Readers : held[r] = 0
           /\ waiting' = waiting \ {w} /\ writing' = {w} /\ UNCHANGED <<held, todo, log, seen>>
Unlock(w) == /\ w \in writing /\ writing' = {} /\ log' = log + 1 /\ todo' = [todo EXCEPT ![w] = @ - 1]
             /\ UNCHANGED <<held, waiting, seen>>
Done == (\A p \in Procs : todo[p] = 0) /\ UNCHANGED vars
Next == (\E r \in Readers : RLock(r) \/ RUnlock(r)) \/ (\E w \in Writers : Want(w) \/ Lock(w) \/ Unlock(w)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exclusive == Cardinality(writing) <= 1 /\ (writing # {} => \A r \in Readers : held[r] = 0)
\* a report belongs to one state: nothing was recorded while it was read
Consistent == \A r \in Readers : held[r] > 0 => seen[r] = log
NoneLost == (\A p \in Procs : todo[p] = 0) => log = Rounds * Cardinality(Writers)
=============================================================================
