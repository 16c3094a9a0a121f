---------------------------- MODULE BudgetTrace -----------------------------
(* Validates sequences of calls and rounds of concurrent calls on budgets.   *)
EXTENDS Budget, TraceLib
BApply(b, o) ==
  CASE o.op = "Request"   -> {[s |-> Request(b, o.x), ok |-> Near(o.res, Grant(b, o.x))]}
    [] o.op = "Release"   -> {[s |-> Release(b, o.x), ok |-> TRUE]}
    [] o.op = "Available" -> {[s |-> b, ok |-> Near(o.res, b.av)]}
BFinal(b, f) == Near(b.av, f.av)
L == INSTANCE Lin WITH Apply <- BApply, FinalOK <- BFinal
TraceInit0(h) == [av |-> 0, max |-> 0]
TraceStep(b, e) ==
  CASE e.op = "New" -> Ver(NewBudget(e.x), <<Need(Near(e.o, Max2(0, e.x)), "new budget is not full")>>)
    [] e.op = "round" ->
         Ver(b, <<Need(L!Explained([av |-> e.init.av, max |-> e.init.max], e.th, e.fin),
                       "no one-at-a-time order explains the grants and the final amount")>>)
    [] e.op = "Request" ->
         Ver([b EXCEPT !.av = e.o],
             <<Need(e.rok /\ e.inb, "grant or available amount out of bounds"),
               Need(Near(e.res, Grant(b, e.x)), "granted amount is not the smaller of request and available"),
               Need(Near(e.o, Request(b, e.x).av), "a request did not take exactly what it granted")>>)
    [] e.op = "Release" ->
         Ver([b EXCEPT !.av = e.o],
             <<Need(e.inb, "available amount out of bounds"),
               Need(Near(e.o, Release(b, e.x).av), "a release did not give back exactly its amount up to the maximum")>>)
=============================================================================
