--------------------------- MODULE NeighborsImpl ----------------------------
(* The design of the neighbour storage: a fixed array with swap-with-last    *)
(* deletion, spilling into an overflow map when full; the overflow map can   *)
(* also be written directly.  TLC checks that it refines the plain set.      *)
EXTENDS Neighbors
CONSTANTS Ids, Cap
VARIABLES arr, ovf, abs
Self == 0
Has(q, id) == \E k \in 1..Len(q) : q[k] = id
IdxOf(q, id) == CHOOSE k \in 1..Len(q) : q[k] = id
Del(q, id) == IF ~Has(q, id) THEN q
              ELSE LET k == IdxOf(q, id) IN SubSeq([q EXCEPT ![k] = q[Len(q)]], 1, Len(q) - 1)
Init == arr = <<>> /\ ovf = {} /\ abs = {}
DoConnect == \E id \in Ids \cup {Self} :
   /\ abs' = Connect(abs, id, Self)
   /\ IF id = Self THEN UNCHANGED <<arr, ovf>>
      ELSE IF Has(arr, id) THEN UNCHANGED <<arr, ovf>>
      ELSE IF Len(arr) < Cap THEN arr' = Append(arr, id) /\ ovf' = ovf
      ELSE ovf' = ovf \cup {id} /\ arr' = arr
DoMap == \E id \in Ids : abs' = abs \cup {id} /\ ovf' = ovf \cup {id} /\ arr' = arr
DoDisc == \E id \in Ids : abs' = Disconnect(abs, id) /\ arr' = Del(arr, id) /\ ovf' = ovf \ {id}
Next == DoConnect \/ DoMap \/ DoDisc
Spec == Init /\ [][Next]_<<arr, ovf, abs>>
Members == Range(arr) \cup ovf
Refines == Members = abs
NoDup   == Cardinality(Range(arr)) = Len(arr) /\ Len(arr) <= Cap
NoSelf  == Self \notin Members
CountOK == Cardinality(Range(arr)) + Cardinality(ovf \ Range(arr)) = Cardinality(abs)
=============================================================================
