------------------------------ MODULE ContTrace -----------------------------
(* Recorded continuous runs.  The checks and updates happen at known times;  *)
(* what is observed are the times at which agents were moved and the end of  *)
(* the run, and what the swarm reports in between.  The specification        *)
(* follows all its possible states.                                          *)
EXTENDS Sync, TraceLib
S0(h) == [act |-> MaxOf(Budgets(h)) > 0, at |-> 0, n |-> 0, last |-> h.m.coh, peak |-> 0, since |-> 0, cu |-> 0, cv |-> -1]
TraceInit0(h) == [h |-> h, now |-> 0, m |-> h.m, S |-> {S0(h)}, over |-> FALSE]
\* an update also reports its measurement (cu: the last one, cv: when the current
\* stretch at or above the threshold began, since the attempt began; -1: none),
\* and every attempt starts a fresh report
TickRep(h, s, m, x) ==
  UNION {{[r EXCEPT !.s.cu = m.coh, !.s.cv = IF ~b THEN -1 ELSE IF s.cv >= 0 THEN s.cv ELSE x - s.at]
          : b \in Bools(GE3(m.coh, GoalOf(h)))} : r \in TickAt(h, s, m)}
CheckRep(h, s, m, x) == {IF q.since # s.since THEN [q EXCEPT !.cu = 0, !.cv = -1] ELSE q : q \in CheckAt(h, s, m, x)}
Reports(s, e) == /\ NearT(e.cur, s.cu, 3)
                 /\ e.isconv = (s.cv >= 0)
                 /\ e.ctime = Max2(s.cv, 0)
\* the next time after now at which something happens in state s
NextCheck(h, now) == (now \div h.C + 1) * h.C
NextTick(h, s, now) == s.at + ((now - s.at) \div h.U + 1) * h.U
\* all states reachable up to time lim when no movement was seen before lim and
\* one was seen at lim iff moved
RECURSIVE Adv(_, _, _, _, _, _)
Adv(h, m, s, now, lim, moved) ==
  LET c == NextCheck(h, now)
      u == IF s.act THEN NextTick(h, s, now) ELSE lim + 1
      x == Min2(c, u)
  IN IF x > lim THEN (IF moved THEN {} ELSE {s})
     ELSE IF x = u THEN
       UNION {IF r.moved /\ (x = lim /\ moved)
              THEN (IF x = c THEN UNION {Adv(h, m, q, x, lim, FALSE) : q \in CheckRep(h, r.s, m, x)} ELSE Adv(h, m, r.s, x, lim, FALSE))
              ELSE IF r.moved /\ m.mv THEN {}
              ELSE (IF x = c THEN UNION {Adv(h, m, q, x, lim, moved) : q \in CheckRep(h, r.s, m, x)} ELSE Adv(h, m, r.s, x, lim, moved))
              : r \in TickRep(h, s, m, x)}
     ELSE UNION {Adv(h, m, q, x, lim, moved) : q \in CheckRep(h, s, m, x)}
All(w, lim, moved) == UNION {Adv(w.h, w.m, s, w.now, lim, moved) : s \in w.S}
Follow(w, e, moved, why) ==
  LET R == All(w, e.at, moved) IN
  IF w.over /\ moved THEN Bad(w, "agents were moved after the end of the run")
  ELSE IF w.over THEN OK([w EXCEPT !.now = e.at])
  ELSE IF R = {} THEN Bad(w, why) ELSE OK([w EXCEPT !.now = e.at, !.S = R])
\* keep the states that agree with the report; when none does, the report is wrong
Told(r, e) ==
  LET K == {s \in r.s.S : Reports(s, e)} IN
  IF r.bad # "" \/ r.s.over THEN r
  ELSE IF K # {} THEN OK([r.s EXCEPT !.S = K])
  ELSE Ver(r.s, <<For("C12", "the reported coherence, convergence or its time is not that of the latest attempt's measurements")>>)
TraceStep(w, e) ==
  CASE e.op = "set" ->
         LET r == Told(Follow(w, e, FALSE, "no attempt moved the agents when one was due"), e) IN
         [r EXCEPT !.s = [r.s EXCEPT !.m = e.m]]
    [] e.op = "touch" -> Follow(w, e, TRUE, "agents were moved although no attempt should be under way")
    [] e.op = "end" ->   \* the context ended at this time
         LET r == Told(Follow(w, e, FALSE, "no attempt moved the agents when one was due"), e) IN
         IF r.bad # "" THEN r
         ELSE Ver([r.s EXCEPT !.over = TRUE], <<Need(~e.before, "the continuous run returned while its context was alive"),
                     Need(e.after, "the continuous run did not return when its context ended"),
                     Need(e.ctxerr, "the continuous run did not return the context's error")>>)
=============================================================================
