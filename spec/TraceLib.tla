------------------------------ MODULE TraceLib ------------------------------
(* Generic trace validation.  A trace is a JSON object [h |-> header,         *)
(* ev |-> sequence of events].  The validating module supplies                *)
(*   Init0(h)      the specification state in which the trace starts          *)
(*   Step(s, e)    [s |-> next specification state,                           *)
(*                  bad |-> "" or why the event is not a specified step,      *)
(*                  kf |-> "" or the id of a recorded known deviation]        *)
(* Every trace is one behaviour; TLC visits each of its states and reports    *)
(* the first event that the specification does not allow.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Init0(_), Step(_, _)
VARIABLES t, i, st, bad

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP

tvars == <<t, i, st, bad>>

OK(s)        == [s |-> s, bad |-> "", kf |-> ""]
Bad(s, why)  == [s |-> s, bad |-> why, kf |-> ""]
Known(s, id) == [s |-> s, bad |-> "", kf |-> id]
\* first non-empty complaint of a sequence of complaints
RECURSIVE First(_)
First(q) == IF q = <<>> THEN "" ELSE IF Head(q) # "" THEN Head(q) ELSE First(Tail(q))
Ver(s, q) == LET w == First(q) IN IF w = "" THEN OK(s) ELSE Bad(s, w)
\* complaint unless the condition holds
Need(c, why) == IF c THEN "" ELSE why
\* complaint only when judging property p
For(p, why)  == IF Prop = p THEN why ELSE ""

\* Events that no behaviour of any specification contains.
Abnormal == {"PANIC", "HANG", "FATAL", "RACE"}
Step0(s, e) == IF e.op \in Abnormal THEN Bad(s, e.op \o ": " \o e.msg) ELSE Step(s, e)

TInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ st = IF Len(Traces[t].ev) > 0 /\ Traces[t].ev[1].op \in Abnormal THEN [x |-> 0] ELSE Init0(Traces[t].h)
         /\ bad = ""

TNext == /\ bad = ""
         /\ i < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[i + 1]
                r == Step0(st, e)
            IN  /\ st' = r.s
                /\ bad' = IF r.bad # ""
                          THEN IF PrintT(<<"BAD", t, i + 1, r.bad>>) THEN r.bad ELSE r.bad
                          ELSE IF r.kf # "" /\ PrintT(<<"KF", t, i + 1, r.kf>>) THEN "" ELSE ""
         /\ i' = i + 1
         /\ t' = t

NoBad == bad = ""
=============================================================================
