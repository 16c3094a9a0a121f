------------------------------- MODULE Runner -------------------------------
(* The user controls: which key means what, and what each control does to a  *)
(* run of the demo.  Keys are character codes; 0 stands for no meaning.       *)
EXTENDS Integers, Sequences, FiniteSets
\* controls in the order of the code's event numbers
Controls == <<"quit", "reset", "disrupt", "pause", "resume",
              "tiny", "small", "medium", "large", "huge",
              "batch", "load", "consensus", "latency", "energy", "rhythm", "failure", "traffic",
              "high", "burst", "steady", "mixed", "sparse">>
Scales   == {"tiny", "small", "medium", "large", "huge"}
Goals    == {"batch", "load", "consensus", "latency", "energy", "rhythm", "failure", "traffic"}
Patterns == {"high", "burst", "steady", "mixed", "sparse"}
Selects  == Scales \cup Goals \cup Patterns
\* upper and lower case of a letter mean the same
Lower(k) == IF k \in 65..90 THEN k + 32 ELSE k
Esc == -1000
Meaning(k) ==
  LET l == Lower(k) IN
  CASE l = 113 -> "quit" [] k = Esc -> "quit"
    [] l = 114 -> "reset" [] l = 100 -> "disrupt" [] l = 112 -> "pause" [] k = 32 -> "resume"
    [] k = 49 -> "tiny" [] k = 50 -> "small" [] k = 51 -> "medium" [] k = 52 -> "large" [] k = 53 -> "huge"
    [] l = 98 -> "batch" [] l = 108 -> "load" [] l = 99 -> "consensus" [] l = 116 -> "latency"
    [] l = 101 -> "energy" [] l = 109 -> "rhythm" [] l = 102 -> "failure" [] l = 97 -> "traffic"
    [] l = 104 -> "high" [] l = 117 -> "burst" [] l = 121 -> "steady" [] l = 120 -> "mixed" [] l = 122 -> "sparse"
    [] OTHER -> "none"
\* What one control does to a run [paused, ended, res, resets, disrupts, cfg]
\* with cfg the three current values.
Apply(s, c) ==
  IF s.ended THEN s
  ELSE CASE c = "quit"    -> [s EXCEPT !.ended = TRUE]
         [] c = "pause"   -> [s EXCEPT !.paused = ~@]
         [] c = "resume"  -> [s EXCEPT !.paused = FALSE]
         [] c = "reset"   -> IF s.paused THEN s ELSE [s EXCEPT !.resets = @ + 1]
         [] c = "disrupt" -> IF s.paused THEN s ELSE [s EXCEPT !.disrupts = @ + 1]
         [] c \in Selects -> IF c \in s.cfg THEN s ELSE [s EXCEPT !.ended = TRUE, !.res = c]
         [] OTHER -> s
RECURSIVE ApplyAll(_, _)
ApplyAll(s, q) == IF q = <<>> THEN s ELSE ApplyAll(Apply(s, Head(q)), Tail(q))
\* the current values after a switch: the chosen one replaces its kind
Kind(c) == IF c \in Scales THEN Scales ELSE IF c \in Goals THEN Goals ELSE Patterns
Switch(cfg, c) == (cfg \ Kind(c)) \cup {c}
Run0(cfg) == [paused |-> FALSE, ended |-> FALSE, res |-> "", resets |-> 0, disrupts |-> 0, cfg |-> cfg]
=============================================================================
