----------------------------- MODULE WorkPoolMC ------------------------------
(* The pool as it is built: a bounded queue, W workers choosing between the   *)
(* queue and the stop signal.  Jobs in Slow never end.                        *)
EXTENDS WorkPool
CONSTANTS W, Jobs, Cap, Slow, MayStop
VARIABLES sub,     \* jobs handed to Submit so far, in order
          pend,    \* jobs whose Submit has not returned yet
          queue, on, runs, fin, stop, up
vars == <<sub, pend, queue, on, runs, fin, stop, up>>
None == 0
Init == /\ sub = {} /\ pend = {} /\ queue = <<>> /\ on = [k \in 1..W |-> None]
        /\ runs = [j \in Jobs |-> 0] /\ fin = {} /\ stop = FALSE /\ up = 1..W
Call(j) == j \notin sub /\ sub' = sub \cup {j} /\ pend' = pend \cup {j} /\ UNCHANGED <<queue, on, runs, fin, stop, up>>
Enter(j) == /\ j \in pend /\ Len(queue) < Cap
            /\ pend' = pend \ {j} /\ queue' = Append(queue, j) /\ UNCHANGED <<sub, on, runs, fin, stop, up>>
Take(k) == /\ k \in up /\ on[k] = None /\ queue # <<>>
           /\ on' = [on EXCEPT ![k] = Head(queue)] /\ queue' = Tail(queue)
           /\ runs' = [runs EXCEPT ![Head(queue)] = @ + 1] /\ UNCHANGED <<sub, pend, fin, stop, up>>
End(k) == /\ on[k] # None /\ on[k] \notin Slow
          /\ fin' = fin \cup {on[k]} /\ on' = [on EXCEPT ![k] = None] /\ UNCHANGED <<sub, pend, queue, runs, stop, up>>
Stop == MayStop /\ ~stop /\ stop' = TRUE /\ UNCHANGED <<sub, pend, queue, on, runs, fin, up>>
Leave(k) == stop /\ k \in up /\ on[k] = None /\ up' = up \ {k} /\ UNCHANGED <<sub, pend, queue, on, runs, fin, stop>>
Next == \/ \E j \in Jobs : Call(j) \/ Enter(j)
        \/ \E k \in 1..W : Take(k) \/ End(k) \/ Leave(k)
        \/ Stop
Fair == /\ \A j \in Jobs : SF_vars(Enter(j))
        /\ \A k \in 1..W : WF_vars(Take(k)) /\ WF_vars(End(k)) /\ WF_vars(Leave(k))
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A j \in Jobs : runs[j] <= 1
Running == {on[k] : k \in 1..W} \ {None}
Limit == Cardinality(Running) <= W /\ Cardinality(Running) = Cardinality({k \in 1..W : on[k] # None})
Finished == fin \subseteq {j \in Jobs : runs[j] = 1}
\* with a worker to spare every other job runs
Enough == Cardinality(Slow) < W
AllRun == Enough /\ ~MayStop => \A j \in Jobs \ Slow : (j \in sub) ~> (j \in fin)
Accepted == Enough /\ ~MayStop => \A j \in Jobs : (j \in sub) ~> (j \notin pend)
\* the quiescent states the trace checks rely on
Still == ~ENABLED (\/ \E j \in Jobs : Enter(j) \/ \E k \in 1..W : Take(k) \/ End(k) \/ Leave(k))
S0 == [w |-> W, held |-> sub \cap Slow]
Quiet == Still /\ ~stop => /\ Cardinality(Running) = Min2(W, Cardinality(S0.held))
                           /\ (Room(S0) => sub \ Slow \subseteq fin)
                           /\ Running \subseteq Slow
QuietStop == Still /\ stop => Cardinality(up) = Cardinality(Running)
EndsAll == stop ~> (\A k \in up : on[k] \in Slow)
=============================================================================
