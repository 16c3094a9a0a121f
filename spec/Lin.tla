-------------------------------- MODULE Lin ---------------------------------
(* Linearizability of a recorded round: several threads, each a sequence of  *)
(* completed operations with their results and the times of call (c) and     *)
(* return (r), started from a known state and followed by an observation of  *)
(* the final state.  The round is explained when some one-at-a-time order of *)
(* all operations that respects program order and real time gives exactly    *)
(* those results and that final state.                                       *)
EXTENDS Integers, Sequences
CONSTANTS Apply(_, _),      \* Apply(s, op) = set of [s |-> next, ok |-> result matches]
          FinalOK(_, _)     \* FinalOK(s, obs)

\* op k of thread n may go next unless another thread's pending operation had
\* returned before this one was called
MayGo(th, pos, n) == \A m \in 1..Len(th) : m = n \/ pos[m] >= Len(th[m])
                        \/ ~(th[m][pos[m] + 1].r < th[n][pos[n] + 1].c)

RECURSIVE Explain(_, _, _, _)
Explain(s, th, pos, fin) ==
  IF \A n \in 1..Len(th) : pos[n] = Len(th[n]) THEN FinalOK(s, fin)
  ELSE \E n \in 1..Len(th) :
         /\ pos[n] < Len(th[n])
         /\ MayGo(th, pos, n)
         /\ \E nx \in Apply(s, th[n][pos[n] + 1]) :
              nx.ok /\ Explain(nx.s, th, [pos EXCEPT ![n] = @ + 1], fin)

Explained(s, th, fin) == Explain(s, th, [n \in 1..Len(th) |-> 0], fin)
=============================================================================
