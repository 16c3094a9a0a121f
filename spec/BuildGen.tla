------------------------------ MODULE BuildGen ------------------------------
(* Configurations with every part known, defaulted or unknown and every      *)
(* value given or left to its default.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Cases == [op: {"build"}, dm: {"", "simple", "adaptive", "other"}, gm: {"", "weighted", "other"}, rm: {"", "token", "other"},
          st: {"", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse", "other"},
          large: BOOLEAN, en: BOOLEAN, inf: BOOLEAN, stub: BOOLEAN, rate: BOOLEAN, fr: BOOLEAN]
Good == {x \in Cases : x.dm # "other" /\ x.gm # "other" /\ x.rm # "other" /\ x.st # "other"}
OneOff == {x \in Cases : ~x.en /\ x.inf = x.stub /\ ~x.rate /\ ~x.fr} \ Good
Init == hist \in {<<x>> : x \in Good \cup OneOff}
Next == Len(hist) = 1 /\ PrintT(<<"T", ToJson(hist)>>) /\ hist' = <<hist[1], [op |-> "end"]>>
Spec == Init /\ [][Next]_hist
=============================================================================
