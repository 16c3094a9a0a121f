------------------------------ MODULE SwarmGen ------------------------------
(* Construction requests: every size class with every order of every subset  *)
(* of the construction options, and every kind of invalid goal.              *)
EXTENDS Swarm, TLC, Json
VARIABLES c
Sizes == {1, 2, 3, 9, 10, 19, 20, 99, 100, 101, 130}
Opts == {"config", "builder", "topology"}
Orders == {<<>>} \cup {<<x>> : x \in Opts} \cup {<<p[1], p[2]>> : p \in {q \in Opts \X Opts : q[1] # q[2]}}
          \cup {<<p[1], p[2], p[3]>> : p \in {q \in Opts \X Opts \X Opts : q[1] # q[2] /\ q[2] # q[3] /\ q[1] # q[3]}}
Cases == [op: {"build"}, size: Sizes, opts: Orders, goal: {"ok"}, via: {"new"}]
         \cup [op: {"build"}, size: {-7, 0, 1, 5, 101}, opts: {<<>>, <<"config">>},
               goal: {"ok", "freq0", "freqneg", "cohneg", "cohbig", "cohnan", "phasenan", "phaseinf"}, via: {"new", "fromconfig"}]
         \cup [op: {"build"}, size: Sizes, opts: {<<"config">>}, goal: {"ok"}, via: {"fromconfig"}]
Init == c \in Cases /\ PrintT(<<"T", ToJson(<<c>>)>>)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
=============================================================================
