----------------------------- MODULE Neighbors ------------------------------
(* The neighbour relation of one agent and the bounded neighbour store (C05).*)
EXTENDS Base
\* the agent's neighbour set
Connect(nb, id, self)  == IF id = self THEN nb ELSE nb \cup {id}
Disconnect(nb, id)     == nb \ {id}
\* the bounded store
StoreOK(st, id, cap)   == id \in st \/ Cardinality(st) < cap
StorePut(st, id, cap)  == IF StoreOK(st, id, cap) THEN st \cup {id} ELSE st
StoreDel(st, id)       == st \ {id}
=============================================================================
