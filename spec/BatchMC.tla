------------------------------ MODULE BatchMC -------------------------------
(* Submitters, the processor with its window, and resets, step by step.      *)
EXTENDS Batch, TLC
CONSTANTS Sizes, Tasks        \* list sizes and how many tasks are ever submitted
VARIABLES q, coll, todo, done, phase, sub, lost, gone, share
vars == <<q, coll, todo, done, phase, sub, lost, gone, share>>
Init == q = <<>> /\ coll = 0 /\ todo = <<>> /\ done = <<>> /\ phase = "idle" /\ sub = 0 /\ lost = 0 /\ gone = 0 /\ share = 0
Submit(n) == /\ sub + n <= Tasks /\ sub' = sub + n
             /\ IF Len(q) < Cap THEN q' = Append(q, n) /\ UNCHANGED lost ELSE lost' = lost + n /\ UNCHANGED q
             /\ UNCHANGED <<coll, todo, done, phase, gone, share>>
Open == /\ phase = "idle" /\ q # <<>> /\ phase' = "collect" /\ coll' = Head(q) /\ q' = Tail(q) /\ share' = CeilDiv(Head(q), Max)
        /\ UNCHANGED <<todo, done, sub, lost, gone>>
More == /\ phase = "collect" /\ q # <<>> /\ coll' = coll + Head(q) /\ q' = Tail(q) /\ share' = share + CeilDiv(Head(q), Max)
        /\ UNCHANGED <<todo, done, phase, sub, lost, gone>>
Close == /\ phase = "collect" /\ phase' = "send" /\ todo' = Cut(coll) /\ coll' = 0
         /\ UNCHANGED <<q, done, sub, lost, gone, share>>
Send == /\ phase = "send" /\ todo # <<>> /\ done' = Append(done, Head(todo)) /\ todo' = Tail(todo)
        /\ UNCHANGED <<q, coll, phase, sub, lost, gone, share>>
Finish == phase = "send" /\ todo = <<>> /\ phase' = "idle" /\ share' = 0 /\ UNCHANGED <<q, coll, todo, done, sub, lost, gone>>
ResetAll == /\ (q # <<>> \/ done # <<>>) /\ gone' = gone + SumSeq(q) + SumSeq(done) /\ q' = <<>> /\ done' = <<>>
            /\ UNCHANGED <<coll, todo, phase, sub, lost, share>>
Next == (\E n \in Sizes : Submit(n)) \/ Open \/ More \/ Close \/ Send \/ Finish \/ ResetAll
Spec == Init /\ [][Next]_vars /\ WF_vars(Open) /\ WF_vars(Close) /\ WF_vars(Send) /\ WF_vars(Finish)
\* every task is exactly in one place
Conserved == sub = SumSeq(q) + coll + SumSeq(todo) + SumSeq(done) + lost + gone
Bounded == Len(q) <= Cap /\ \A k \in 1..Len(todo) : todo[k] \in 1..Max
Counted == /\ \A k \in 1..Len(done) : done[k] \in 1..Max
           /\ LET s == Totals(done) IN /\ s.batches * Max >= s.calls /\ s.batches <= s.calls
                                       /\ s.without = Price * s.calls /\ s.with * 2 = Price * s.batches
\* putting lists together never makes more batches than sending each alone
Shared == Len(todo) <= share
\* nothing stays behind: without resets and drops everything is counted in the end
Drains == <>[](q = <<>> /\ coll = 0 /\ todo = <<>>)
=============================================================================
