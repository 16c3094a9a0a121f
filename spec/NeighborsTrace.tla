--------------------------- MODULE NeighborsTrace ---------------------------
(* Validates recorded histories of neighbour operations.  The recorder logs, *)
(* after each call, every id that answers as connected, the count, and what  *)
(* the agent perceives in a context update.                                  *)
EXTENDS Neighbors, Wide, TraceLib
\* h.cos, h.sin: unit vectors of the ids' phases; ids are 1..Len(h.cos); 0 is the agent itself
TraceInit0(h) == [nb |-> {}, cap |-> h.cap, cos |-> h.cos, sin |-> h.sin]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
View(nb, o, s) ==
  First(<<Need(Range(o.conn) = nb, "membership answers differ from the connections made"),
          Need(o.cnt = Cardinality(nb), "neighbour count differs from the connections made"),
          Need(o.pcnt = Cardinality(nb), "the context update perceives a different number of neighbours"),
          Need(nb = {} \/ LengthIs(o.pcoh, Sum(s.cos, nb), Sum(s.sin, nb), Cardinality(nb), 5),
               "the perceived local coherence is not that of the neighbour set")>>)
SView(nb, o) ==
  First(<<Need(Range(o.ids) = nb /\ Len(o.ids) = Cardinality(nb), "the store does not hold exactly the accepted entries"),
          Need(Range(o.ranged) = nb /\ Len(o.ranged) = Cardinality(nb), "iterating the store does not visit each entry once"),
          Need(o.cnt = Cardinality(nb), "the store's count is wrong"),
          Need(o.match, "the store returns another agent than the one stored"),
          Need(Range(o.conn) = nb, "lookups differ from the accepted entries")>>)
TraceStep(s, e) ==
  LET nb == s.nb IN
  CASE e.op = "connect" ->
         LET n == Connect(nb, e.id, 0) IN Ver([s EXCEPT !.nb = n], <<View(n, e.o, s)>>)
    [] e.op = "mapstore" ->
         LET n == Connect(nb, e.id, 0) IN Ver([s EXCEPT !.nb = n], <<View(n, e.o, s)>>)
    [] e.op = "replace" ->  \* another agent takes the id's place
         LET n == Connect(nb, e.id, 0)  q == [s EXCEPT !.nb = n, !.cos[e.id] = e.c, !.sin[e.id] = e.s] IN Ver(q, <<View(n, e.o, q)>>)
    [] e.op = "turn" ->     \* the agent of that id changes its phase
         LET q == [s EXCEPT !.cos[e.id] = e.c, !.sin[e.id] = e.s] IN Ver(q, <<View(nb, e.o, q)>>)
    [] e.op = "disconnect" ->
         LET n == Disconnect(nb, e.id) IN Ver([s EXCEPT !.nb = n], <<View(n, e.o, s)>>)
    [] e.op = "store" ->
         LET n == StorePut(nb, e.id, s.cap) IN
         Ver([s EXCEPT !.nb = n], <<Need(e.res = StoreOK(nb, e.id, s.cap), "the store accepted or refused an entry wrongly"), SView(n, e.o)>>)
    [] e.op = "delete" ->
         LET n == StoreDel(nb, e.id) IN Ver([s EXCEPT !.nb = n], <<SView(n, e.o)>>)
    [] e.op = "load" -> Ver(s, <<Need(e.res = (e.id \in nb), "lookup answer is wrong"), SView(nb, e.o)>>)
    [] e.op = "clear" -> Ver([s EXCEPT !.nb = {}], <<SView({}, e.o)>>)
=============================================================================
