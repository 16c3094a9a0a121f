------------------------------ MODULE RunnerMC ------------------------------
(* The demo as it is built: a bounded key queue that drops when full, a loop  *)
(* that takes one control after the other, a one-place result box, and the    *)
(* application loop that starts the next run; next to it the specification of *)
(* the controls, fed with the keys that were accepted.  A termination signal  *)
(* ends the root context of all runs.                                         *)
EXTENDS Runner, TLC
CONSTANTS Keys, QCap, MaxKeys, MaxRuns
VARIABLES queue, sent, paused, phase, box, root, cfg, runs, spec, sig
vars == <<queue, sent, paused, phase, box, root, cfg, runs, spec, sig>>
Cfg0 == {"tiny", "batch"}
Init == /\ queue = <<>> /\ sent = 0 /\ paused = FALSE /\ phase = "run" /\ box = "" /\ root = TRUE
        /\ cfg = Cfg0 /\ runs = 1 /\ spec = Run0(Cfg0) /\ sig = FALSE
\* a key is accepted or, with a full queue, dropped
Press(c) == /\ phase # "exit" /\ sent < MaxKeys /\ sent' = sent + 1
            /\ queue' = IF Len(queue) < QCap THEN Append(queue, c) ELSE queue
            /\ UNCHANGED <<paused, phase, box, root, cfg, runs, spec, sig>>
\* the loop takes a control, unless its context has ended
Take == /\ phase = "run" /\ queue # <<>>
        /\ LET c == Head(queue) IN
           /\ queue' = Tail(queue)
           /\ spec' = Apply(spec, c)
           /\ paused' = (CASE c = "pause" -> ~paused [] c = "resume" -> FALSE [] OTHER -> paused)
           /\ box' = (IF c \in Selects /\ c \notin cfg THEN c ELSE box)
           /\ phase' = (IF c = "quit" \/ (c \in Selects /\ c \notin cfg) THEN "over" ELSE "run")
        /\ UNCHANGED <<sent, root, cfg, runs, sig>>
\* the run returns what is in the box; the application goes on or ends
Return == /\ phase = "over"
          /\ (IF box # "" /\ runs < MaxRuns
              THEN /\ cfg' = Switch(cfg, box) /\ runs' = runs + 1 /\ box' = "" /\ paused' = FALSE /\ queue' = <<>>
                   /\ spec' = Run0(cfg') /\ phase' = (IF root THEN "run" ELSE "over")
                   /\ UNCHANGED <<sent, root, sig>>
              ELSE /\ phase' = "exit" /\ UNCHANGED <<queue, sent, paused, box, root, cfg, runs, spec, sig>>)
Signal == /\ ~sig /\ sig' = TRUE /\ root' = FALSE /\ UNCHANGED <<queue, sent, paused, phase, box, cfg, runs, spec>>
\* the end of the root context ends the present run
RootEnd == /\ phase = "run" /\ ~root /\ phase' = "over" /\ UNCHANGED <<queue, sent, paused, box, root, cfg, runs, spec, sig>>
Done == phase = "exit" /\ UNCHANGED vars
Next == (\E c \in Keys : Press(c)) \/ Take \/ Return \/ Signal \/ RootEnd \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Return) /\ WF_vars(RootEnd)
\* the loop does what the specification of the controls says
Agrees == phase = "run" => (spec.paused = paused /\ ~spec.ended)
Reported == (phase = "over" /\ box # "") => (spec.res = box)
OneKindEach == \A K \in {Scales, Goals} : Cardinality(cfg \cap K) = 1
\* a termination signal ends the program, whatever happened before
SignalEnds == sig ~> phase = "exit"
\* a quit that was accepted by the present run ends the program, unless a switch came first
QuitEnds == (phase = "run" /\ queue # <<>> /\ Head(queue) = "quit") ~> (phase = "exit" \/ (phase = "run" /\ sig))
Drained == (phase = "run" /\ queue # <<>>) ~> (queue = <<>> \/ phase = "exit")
=============================================================================
