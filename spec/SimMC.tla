------------------------------- MODULE SimMC --------------------------------
(* Runs of the swarm started and cancelled by the control actions, with time *)
(* limits of the flags: however the actions are ordered, at most one run is  *)
(* driving, none while paused, and a flag outlives no later action.          *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Runs, Limit, Horizon
VARIABLES started, stopped, paused, live, used, moved, frozen, now, flag, since, watch
vars == <<started, stopped, paused, live, used, moved, frozen, now, flag, since, watch>>
Init == /\ started = FALSE /\ stopped = FALSE /\ paused = FALSE /\ live = {} /\ used = 0 /\ moved = 0 /\ frozen = -1
        /\ now = 0 /\ flag = FALSE /\ since = 0 /\ watch = {}
\* live: runs whose context is not cancelled
Begin(l) == IF used < Runs THEN live' = l \cup {used + 1} /\ used' = used + 1 ELSE live' = l /\ UNCHANGED used
Start == /\ ~started /\ started' = TRUE
         /\ (IF paused THEN UNCHANGED <<live, used>> ELSE Begin({}))
         /\ UNCHANGED <<stopped, paused, moved, frozen, now, flag, since, watch>>
Pause == /\ ~stopped /\ paused' = TRUE /\ live' = {} /\ frozen' = moved /\ UNCHANGED <<started, stopped, used, moved, now, flag, since, watch>>
Resume == /\ ~stopped
          /\ IF paused THEN paused' = FALSE /\ (IF started THEN Begin(live) ELSE UNCHANGED <<live, used>>) ELSE UNCHANGED <<paused, live, used>>
          /\ frozen' = -1 /\ UNCHANGED <<started, stopped, moved, now, flag, since, watch>>
Drive(r) == r \in live /\ moved < 2 /\ moved' = moved + 1 /\ UNCHANGED <<started, stopped, paused, live, used, frozen, now, flag, since, watch>>
Stop == started /\ ~stopped /\ stopped' = TRUE /\ live' = {} /\ UNCHANGED <<started, paused, used, moved, frozen, now, flag, since, watch>>
\* a disruption raises the flag and leaves a watcher that lowers it when its own time is up
Disrupt == /\ Cardinality(watch) < 2 /\ flag' = TRUE /\ since' = now /\ watch' = watch \cup {now}
           /\ UNCHANGED <<started, stopped, paused, live, used, moved, frozen, now>>
Expire(w) == /\ w \in watch /\ now >= w + Limit /\ watch' = watch \ {w} /\ flag' = (IF w = since THEN FALSE ELSE flag)
             /\ UNCHANGED <<started, stopped, paused, live, used, moved, frozen, now, since>>
Tick == now < Horizon /\ (\A w \in watch : now < w + Limit) /\ now' = now + 1 /\ UNCHANGED <<started, stopped, paused, live, used, moved, frozen, flag, since, watch>>
Next == Start \/ Pause \/ Resume \/ Stop \/ Disrupt \/ Tick \/ (\E r \in live : Drive(r)) \/ (\E w \in watch : Expire(w))
Spec == Init /\ [][Next]_vars
OneDriver == Cardinality(live) <= 1
Frozen == paused => live = {} /\ (frozen # -1 => moved = frozen)
Ends == stopped => live = {}
FlagKept == (since + Limit > now /\ watch # {}) => flag
FlagEnds == now > since + Limit => ~flag
=============================================================================
