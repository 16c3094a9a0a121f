---------------------------- MODULE RunnerTrace -----------------------------
EXTENDS Runner, TraceLib
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
\* queue: controls accepted by a keyboard controller and not yet taken
TraceInit0(h) == IF "cfg" \in DOMAIN h
                 THEN [run |-> Run0({h.cfg[k] : k \in 1..Len(h.cfg)}), queue |-> <<>>, timeout |-> h.timeout, every |-> h.every, end |-> "", app |-> [cfg |-> {}, runs |-> 0, auto |-> TRUE, best |-> [batch |-> ""]]]
                 ELSE [run |-> Run0({}), queue |-> <<>>, timeout |-> 0, every |-> 0, end |-> "", app |-> [cfg |-> {}, runs |-> 0, auto |-> TRUE, best |-> [batch |-> ""]]]
J(s, q) == Ver(s, <<For("C24", First(q))>>)
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Means(codes) == [k \in 1..Len(codes) |-> Meaning(codes[k])]
Useful(q) == SelectSeq(q, LAMBDA c : c # "none")

---- \* the keyboard controller on its own
PressC(s, e) == [s EXCEPT !.queue = @ \o Useful(Means(e.keys))]
DrainJ(s, e) == <<Need(Prefix(e.got, s.queue), "a key has another meaning, or keys are taken out of order"),
                  Need(Len(e.got) >= Len(s.queue) \/ Len(e.got) >= 10, "a key is lost")>>
ShortJ(e) == <<Need(e.ev = e.v, "the key shown for a goal or pattern selects another one"),
               Need(Meaning(e.key) = e.v, "the key shown for a goal or pattern is not the documented one")>>
ScriptJ(e) == <<Need(e.got = e.script, "a script is not played in order"),
                Need(Len(e.at) = Len(e.due), "a script is not played"),
                Need(\A k \in 1..Len(e.at) : Near(e.at[k], e.due[k], 1), "a script is not played at its times")>>

---- \* a run with a display
\* the selections any of which may win when they are pressed together
RECURSIVE Selected(_, _)
Selected(s, q) == IF q = <<>> THEN {} ELSE
                  IF s.ended /\ s.res = "" THEN {} ELSE
                  LET c == Head(q) IN
                  (IF c \in Selects /\ c \notin s.cfg THEN {c} ELSE {}) \cup Selected(Apply([s EXCEPT !.ended = FALSE], c), Tail(q))
Tame(s, q) == \A k \in 1..Len(q) : q[k] \in {"reset", "disrupt", "none"} \cup s.cfg
KeysJ(s, q, n, e) ==
  IF n.ended THEN <<Need(e.ended, "quitting or selecting does not end the run")>>
  ELSE <<Need(~e.ended, "the run ends without being told"),
         Need(e.left = 0, "controls are not taken"),
         Need(e.paused = n.paused, "the pause controls leave the wrong state"),
         Need(e.restarted = (n.resets > s.resets), "a reset happens when it must not, or not when it must"),
         Need(e.was \/ e.flag = (n.disrupts > s.disrupts), "a disruption happens when it must not, or not when it must"),
         Need(~(s.paused /\ e.settled /\ Tame(s, q)) \/ e.still, "agents are moved while paused")>>
KeysS(s, e) ==
  LET q == Means(e.keys)
      n == ApplyAll(s.run, q)
      w == IF n.ended /\ n.res # "" THEN Selected([s.run EXCEPT !.res = "x"], q) ELSE {}
  IN  J([s EXCEPT !.run = [n EXCEPT !.res = ""], !.end = IF n.ended THEN "keys" ELSE @, !.app = [@ EXCEPT !.cfg = w]], KeysJ(s.run, q, n, e))
WaitJ(s, e) == <<Need(s.timeout = 0 \/ e.now > s.timeout - 50 \/ ~e.ended, "the run ends before its time limit"),
                 Need(s.timeout > 0 \/ ~e.ended, "the run ends without being told"),
                 Need(s.timeout = 0 \/ e.now < s.timeout + 100 \/ e.ended, "the run outlives its time limit")>>
\* the display is refreshed once per interval and shows what is there
UpdatesJ(s, e) == <<Need(Near(e.n, e.ms \div s.every, 1), "the display is not refreshed once per interval"),
                    Need(e.bad = 0, "the display is shown something else than the simulation's state")>>
ErrOf(c) == CASE c = "init" -> "display" [] c = "run" -> "display" [] c = "ctl" -> "controller" [] OTHER -> ""
EndJ(s, e) ==
  LET err == ErrOf(e.fault) IN
  <<Need(e.results = 1, "a run does not return exactly one result"),
    Need((e.err # "") = (err # ""), "a run reports an error that did not happen, or not the one that did"),
    Need(err # "display" \/ e.err = "display", "a display error is not passed on"),
    Need(IF s.app.cfg # {} /\ err = "" THEN e.res \in s.app.cfg ELSE e.res = "", "the selection reported is not the one made"),
    Need(e.init = 1, "the display is not initialized exactly once"),
    Need(e.close = (IF e.fault = "init" THEN 0 ELSE 1), "the display is not closed exactly once"),
    Need(e.welcome = (IF e.fault = "init" THEN 0 ELSE 1), "the welcome is not shown exactly once"),
    Need(e.summary = (IF err # "" \/ e.res # "" THEN 0 ELSE 1), "the summary is not shown exactly at the end of the last run"),
    Need(e.sumbad = 0, "the summary does not show the simulation's statistics"),
    Need(e.late = 0, "the display is updated after the run"),
    Need(e.quiet, "the simulation goes on after the run")>>

---- \* the program: each reaction to one key, pressed once it can be read
AppKeyS(s, e) ==
  LET c == Meaning(e.key)
      a == s.app
      cfg == a.cfg
      change == c \in Selects /\ c \notin cfg
      \* an open pattern follows the goal
      next == IF a.auto /\ c \in Goals THEN Switch(Switch(cfg, c), a.best[c]) ELSE Switch(cfg, c)
  IN  IF c = "quit" THEN J(s, <<Need(e.exited, "quitting does not end the program"), Need(e.code = 0, "the program ends with an error")>>)
      ELSE J([s EXCEPT !.app.cfg = IF change THEN next ELSE cfg, !.app.auto = @ /\ ~(change /\ c \in Patterns), !.app.runs = IF change THEN @ + 1 ELSE @],
             <<Need(~e.exited, "the program ends without being told"),
               Need(e.runs = a.runs + (IF change THEN 1 ELSE 0), "selecting another value does not restart the demo once, or selecting the current one does"),
               Need(e.said = (IF change THEN c ELSE ""), "the demo switches to something else than the chosen value")>>)
AppShownJ(s, e) == <<Need({e.shown[k] : k \in 1..Len(e.shown)} = s.app.cfg, "the demo does not run with the chosen values")>>
AppTextJ(e) == CASE e.what = "timeout" -> <<Need(e.exited /\ e.code = 0 /\ e.summary, "the program does not end with a summary at its time limit")>>
                 [] e.what = "scale" -> <<Need(e.exited /\ (e.code # 0) = e.badscale, "an unknown scale is accepted, or a known one is not")>>
                 [] e.what = "list" -> <<Need(e.exited /\ e.code = 0, "listing the scales fails")>>
                 [] OTHER -> <<"unknown">>
TraceStep(s, e) ==
  CASE e.op = "press"  -> OK(PressC(s, e))
    [] e.op = "drain"  -> J([s EXCEPT !.queue = <<>>], DrainJ(s, e))
    [] e.op = "short"  -> J(s, ShortJ(e))
    [] e.op = "script" -> J(s, ScriptJ(e))
    [] e.op = "keys"   -> KeysS(s, e)
    [] e.op = "wait"   -> J([s EXCEPT !.run.ended = @ \/ e.ended], WaitJ(s, e))
    [] e.op = "cancel" -> J([s EXCEPT !.run.ended = TRUE], <<Need(e.ended, "the end of the caller's context does not end the run")>>)
    [] e.op = "updates" -> J(s, UpdatesJ(s, e))
    [] e.op = "shown"  -> J(s, <<Need(e.bad = 0, "the display is shown something else than the simulation's state")>>)
    [] e.op = "end"    -> J(s, EndJ(s, e))
    [] e.op = "app"    -> J([s EXCEPT !.app = [cfg |-> {e.cfg[k] : k \in 1..Len(e.cfg)}, runs |-> 1, auto |-> TRUE, best |-> e.best]],
                            <<Need(e.runs = 1 /\ ~e.exited, "the program does not start")>>)
    [] e.op = "appkey" -> AppKeyS(s, e)
    [] e.op = "appshown" -> J(s, AppShownJ(s, e))
    [] e.op = "signal" -> J(s, <<Need(e.exited, "a termination signal does not end the program")>>)
    [] e.op = "text"   -> J(s, AppTextJ(e))
=============================================================================
