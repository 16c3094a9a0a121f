#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": state, "meaning": "state the property speaks about", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Agent quantities stay in their physical ranges",
  "Whatever finite values an agent is built with or has set on it, and in whatever order with actions, context updates and disruptions in between, its phase and preferred phase lie in [0, 2π), its energy is never negative, and its influence and stubbornness lie in [0, 1]. Setting one quantity stores the given value, wrapped on the circle or clamped to its range, and changes no other quantity.",
  ["inputs", "histories"], "every finite float for every quantity, every sequence of constructor options, setters, actions and context updates",
  "The tests sample a few values per setter and never combine setters with actions and context updates; ranges must survive every sequence and every magnitude.",
  ["emerge/agent/agent.go", "emerge/agent/builder.go", "emerge/agent/atomic_state.go", "emerge/core/phase.go"],
  "all writes go through wrap/clamp helpers inside one atomic record update", "phase, preferred phase, energy, frequency, influence, stubbornness", "public getters after every call")

p("C02", "Actions are all-or-nothing and cost exactly what they declare",
  "An action the agent can afford moves its phase by exactly the action's amount on the circle (a maintain action moves nothing), takes exactly its cost from the agent's energy and, as far as that lasts, from its resource budget, and reports success with that cost. An action that costs more than the available energy is refused with the insufficient-energy error and an affordable action of an unknown kind with the unknown-action error; a refused action reports no cost and leaves the agent and its resource budget untouched.",
  ["inputs", "histories"], "every action kind, amount and non-negative cost, on every agent state, in every sequence",
  "The tests apply single actions on fresh agents; boundary costs (exactly the remaining energy), long sequences that drain the energy and every kind times every outcome are not enumerated.",
  ["emerge/agent/agent.go", "emerge/core/errors.go"],
  "cost check and state change inside one atomic update, then the charge on the resource manager", "phase, energy, resource budget", "result of each action and getters afterwards")

p("C03", "Concurrent operations on one agent take effect one at a time",
  "When several goroutines set quantities and apply actions on the same agent at once, the results they get and the state they leave are those of some one-at-a-time order of the same operations. No completed update is ever lost or undone by another quantity's update, and concurrent actions together never spend more than the agent's energy.",
  ["schedules"], "every interleaving of setters, actions and readers on one agent",
  "The tests never run two writers on one agent against an oracle; a lost update needs a precise interleaving inside a read-modify-write.",
  ["emerge/agent/atomic_state.go", "emerge/agent/agent.go"],
  "retry loop on compare-and-swap of one immutable record", "agent state record", "call and return of each operation")

p("C04", "Resource budgets are conserved under concurrent use",
  "A request on a resource budget is granted exactly the smaller of the amount asked for and the amount available (nothing for non-positive amounts), a release gives back exactly its amount but never fills the budget above its maximum, and the available amount stays between zero and the maximum. With concurrent callers the grants and the final amount are those of some one-at-a-time order.",
  ["inputs", "schedules", "histories"], "every amount, every maximum, every interleaving of requests, releases and reads",
  "The budget has no tests of its own; double grants need two requests inside the check-then-store window.",
  ["internal/resource/token.go"], "mutex around check and store", "available tokens, maximum", "grant returned by each request, available amount")

p("C05", "An agent's neighbours are one consistent set",
  "An agent is connected to exactly the other agents it was connected to and not since disconnected from, whichever way the connection was made and however many there are; connecting twice counts once and an agent is never its own neighbour. Its neighbour count, its membership answers and the neighbours it perceives in a context update always agree with that set. The bounded neighbour store never holds more than its capacity, accepts new entries exactly while there is room, always accepts an update of an entry it holds, and loses no other entry on deletion.",
  ["histories", "inputs"], "every sequence of connects, reconnects, disconnects and clears over any number of neighbours",
  "The tests connect one or two agents; the store's swap-with-last deletion, its full state and the interplay of its two storages need longer histories.",
  ["emerge/agent/agent.go", "emerge/agent/neighbor_storage.go"], "fixed-size store with map overflow", "neighbour set, capacity", "membership, count, perceived neighbours")

p("C06", "A new swarm is exactly the swarm that was asked for",
  "Creating a swarm of N agents yields exactly N agents with distinct names, all listed under their own name, at any size; connections are symmetric, never lead to oneself, stay inside the swarm, and every agent has at least the configured minimum of neighbours. Agents start with the configured energy and custom agents and topologies are used at every size, whatever the order of the options. A non-positive size, an invalid goal or a size above the configured maximum is rejected with an error and no swarm.",
  ["configurations", "inputs"], "every size on both sides of the storage threshold, every valid configuration, every order of options",
  "The tests build a handful of sizes and never compare the small and large storage layouts or check the graph invariants edge by edge.",
  ["emerge/swarm/swarm.go", "internal/config/swarm.go"], "storage layout chosen by size; random connection establishment", "agent table, neighbour relation", "lookups and neighbour relations after construction")

p("C07", "Topology builders produce exactly the named graph",
  "On a swarm of n ≥ 2 agents a full mesh connects every agent with every other, a ring gives every agent exactly its two circle neighbours (one when n = 2) in a single cycle through all agents, and a star connects one hub with all others and the others only with the hub. Fewer than two agents are refused for ring and star, and the built relation is always symmetric.",
  ["configurations"], "every size from 1 to beyond the storage threshold and every builder",
  "There are no tests of the builders at all; wrong edges at particular sizes or beyond the fixed neighbour capacity go unnoticed.",
  ["internal/topology/ring.go", "internal/topology/star.go", "internal/topology/full.go", "emerge/agent/agent.go"], "edge construction over the agent list", "neighbour relation", "degree and adjacency of every agent")

p("C08", "All views and disruptions of a swarm reach the same agents",
  "Listing the agents, looking each up by name and visiting them one by one yield the same agents at every size, each exactly once; a visit stops as soon as the visitor says so, and unknown names are not found. A disruption of a fraction p moves at most ⌊N·p⌋ agents (p clamped to [0, 1]) to new phases, reaches that many at every size, changes nothing else about any agent and forgets the convergence recorded so far.",
  ["configurations", "inputs", "histories"], "every size, every fraction including out-of-range ones, repeated disruptions",
  "The disruption tests accept any outcome within wide bounds and use small sizes; the large-swarm layout is never visited agent by agent.",
  ["emerge/swarm/swarm.go"], "iteration over the size-dependent agent store", "agent phases, convergence record", "agents before and after")

p("C09", "Coherence measures are the Kuramoto order parameter",
  "For every set of phases the reported coherence equals the length of the mean of the unit vectors at those phases: it lies in [0, 1], is 0 for no agents, 1 exactly when all phases agree modulo a full turn, and does not depend on the order of the agents, on a common rotation or on the storage size class. The weighted form does the same for non-negative weights, phase convergence is one minus the mean circular distance to any target phase divided by π, and phase variance is the mean squared circular deviation from the mean phase.",
  ["inputs", "configurations"], "every multiset of phases, every target phase including ones outside one turn, every weight vector",
  "Coherence is the quantity every guarantee is stated in, yet the tests check only aligned, opposite and uniform examples with loose bounds.",
  ["emerge/core/phase.go", "emerge/swarm/swarm.go", "emerge/swarm/phase_convergence.go"], "circular mean", "agent phases", "measure functions")

p("C10", "A run succeeds only when the target is reached and always ends",
  "A synchronization run returns success only if, at its last measurement, the coherence was within the configured tolerance of the target and the mean phase and frequency within the configured distance of the goal (for high targets also the phase convergence); it returns success at the first measurement where that holds. If the context ends first it returns the context's error and touches no agent afterwards; otherwise it gives up with an error after the number of update intervals its configuration and target difficulty allow, never more than 1000.",
  ["histories", "schedules", "configurations"], "every sequence of swarm states seen by the run's measurements, every cancellation time, every goal configuration",
  "The tests run randomly initialised swarms and accept either outcome; which measurement ends the run, the exact budget and the cancellation behaviour are not pinned down.",
  ["emerge/swarm/goal_directed.go", "emerge/swarm/swarm.go", "emerge/swarm/limits.go"], "ticker loop measuring, deciding, adjusting", "iteration count, agent phases", "return value and return time on a virtual clock")

p("C11", "Continuous operation never stops by itself and recovers",
  "A continuous run returns only after its context has ended, and then with the context's error, however often synchronization succeeds or fails in between. At every check interval without a synchronization attempt under way, and more than the minimum resynchronization interval after the last one began, a coherence below the minimum viable level, below the accepted share of the target, or dropped too far from its recent peak or its last value starts a new attempt; at most one attempt is under way at any time, and no attempt starts while the coherence is acceptable.",
  ["histories", "schedules", "fault_sequences"], "every history of coherence values at the check instants, every timing of disruptions and of attempts succeeding or failing",
  "The tests sleep through a few disruptions with real time and accept either outcome; the decision at each check and the overlap of attempts are never observed.",
  ["emerge/swarm/swarm_continuous_run.go", "emerge/swarm/thresholds.go"], "monitor loop with resynchronization decision", "peak, last coherence, attempt active, last attempt time", "agent adjustments and return on a virtual clock")

p("C12", "Convergence reports follow the measurements",
  "After every measurement the reported current coherence is that measurement, and the system is reported converged exactly when it is at least the convergence threshold; the convergence time is the time from the start (or last reset) to the beginning of the current stretch at or above the threshold, and zero otherwise. The history, sample count, minimum, maximum, mean, standard deviation and trend are those of exactly the measurements since the last reset (of the latest 100 in the plain sample monitor), the stability is one without variation and falls exponentially with the standard deviation of the latest twenty, and the predicted time is what is left to the threshold at the present trend, zero when converged or not rising, never negative. Reading a report changes nothing, and a swarm or client reports the measurements its run makes; each attempt of a continuous run begins a fresh report.",
  ["histories"], "every sequence of measurements, resets and reports",
  "The tests record a few values once; dropping below the threshold, re-converging, resets and reports in between are not combined.",
  ["emerge/monitoring/convergence.go", "internal/emerge/convergence.go", "emerge/monitoring/monitor.go", "internal/emerge/metrics.go", "emerge/swarm/goal_directed.go", "client/emerge/emerge.go"], "locked history and converged-since mark", "history, converged-since", "all report functions after each call")

p("C13", "Monitoring never blocks or corrupts under concurrent use",
  "Any mix of goroutines that record measurements, read reports, reset and predict on the same monitor all finish: no schedule deadlocks, even when a writer is waiting between two reads. Every report a reader gets corresponds to a state the monitor really was in between the call and its return, and no measurement recorded is lost.",
  ["schedules"], "every interleaving of readers and writers, with a writer arriving at any point of a report",
  "The existing concurrency tests are smoke tests without an oracle; a writer queued between two nested read locks is a window of nanoseconds.",
  ["emerge/monitoring/convergence.go", "internal/emerge/convergence.go", "emerge/monitoring/monitor.go", "internal/emerge/metrics.go", "emerge/convergence/monitor.go"], "writer-preferring read-write lock taken once per call", "lock state, history", "call and return of each operation")

p("C14", "Progress tracking recognises convergence, stalls and divergence",
  "Over the most recent window of samples the tracker (at least three are needed for any verdict) the tracker reports converging exactly when the least-squares trend of the distance to the target falls by more than a thousandth per sample, reports stuck exactly after more than five consecutive samples without a trend of at least that size either way, and asks for a strategy switch exactly when more than 70 % of the samples in the window did not improve the distance by more than a thousandth per second. Progress is the covered share of the oldest remembered distance, always between 0 and 1; memory stays bounded by the window however long it runs; a reset forgets everything.",
  ["histories"], "every sequence of samples and resets, every window size",
  "The tracker has no tests; its answers depend on the whole recent window and on the truncation of its history.",
  ["emerge/convergence/monitor.go", "emerge/core/pattern.go"], "sliding window regression and counters", "sample window, stuck counter", "answers after each sample on a virtual clock")

p("C15", "Configuration is rejected or made valid, never accepted broken",
  "Validation of a swarm configuration accepts a configuration for a swarm size exactly when the size is positive and within the configured maximum, every probability is in [0, 1] (so not NaN), the neighbour limits fit the size and each other, the concurrency, batch, worker and threshold counts are not negative, and intervals, energy and basin width are positive; validating changes nothing. Normalization reports an error exactly when the size or a NaN cannot be repaired and otherwise leaves a configuration that validation accepts; it corrects every out-of-range value to the nearest valid one or the default, leaves valid values unchanged apart from filling automatic batch parameters, and doing it twice changes nothing more. Goal states follow the same discipline with phase wrapped onto the circle.",
  ["inputs", "configurations"], "every combination of field values around their limits, every swarm size",
  "The tests cover single bad fields; interactions between fields, sizes and normalization order are combinatorial.",
  ["internal/config/swarm.go", "emerge/core/state.go", "emerge/swarm/swarm.go"], "validate, normalize, validate again", "configuration record", "returned error and resulting fields")

p("C16", "Every goal, tuning and scale yields a usable configuration",
  "Every goal combined with any of the optimization traits, each applied at most once and in any order, and any positive swarm size yields a configuration that validation accepts and a swarm or client can be built from; an ambitious coherence target is lowered to the practical limit of the size. The limits satisfy recommended ≤ practical ≤ theoretical ≤ 1, never shrink as swarms grow beyond two agents, and the expected convergence effort never shrinks as the target rises. Clients built for a scale have that scale's agent count and, unless overridden, its target coherence; targets above 1 or that are not numbers are rejected, as are non-positive ones given as an option.",
  ["configurations"], "goals × ordered trait subsets × sizes × targets",
  "The tests try single goals and traits on a few sizes; combinations multiply adjustments and can leave the valid range.",
  ["emerge/swarm/config.go", "emerge/swarm/goal_constants.go", "emerge/swarm/limits.go", "emerge/scale/scale.go", "client/emerge/custom.go", "client/emerge/builder.go", "emerge/goal/config.go"], "multiplicative tuning with clamps, size tables", "configuration record", "validation result, limits, client size and target")

p("C17", "Synchronization strategies move the short way and never overshoot",
  "For every current and target phase a strategy's proposed move points along the shorter arc toward the target, is no longer than the remaining distance times its rate, and is exactly the declared share of that distance; its cost is non-negative and grows with the length of the move, and its confidence lies in [0, 1]. A pulse moves at most once per period and otherwise maintains, the energy-aware strategy maintains when already close, and the adaptive strategy always answers with one of its members or maintains when it has none.",
  ["inputs", "histories"], "every pair of phases on the circle, every rate, every context, every call timing",
  "The tests sample a few phase pairs; direction errors appear only in particular quadrants or across the wrap.",
  ["emerge/strategy/phase_nudge.go", "emerge/strategy/frequency_lock.go", "emerge/strategy/energy_aware.go", "emerge/strategy/pulse.go", "emerge/strategy/adaptive.go", "emerge/core/phase.go"], "signed circular difference times rate", "phases, last pulse time", "proposed action and confidence")

p("C18", "Agents decide by value, within their means, and respect stubbornness",
  "An agent's choice among options is the first with the greatest benefit per cost (costs below 0.1 count as 0.1) with a confidence in [0, 1]; blending goals moves the phase along the shorter arc by exactly the clamped weight and mixes coherence linearly. A fully stubborn agent never accepts a change, an accepted proposal never costs more than the agent's energy, and a refused one is a maintain action; proposing changes no agent state. A context update makes the agent prefer a phase on the shorter arc between its own and its neighbours' mean, at least half way toward that mean and the mean itself when the neighbours agree, and changes neither its phase nor its energy.",
  ["inputs", "histories"], "every list of options, every weight, every energy and neighbourhood",
  "The tests check a few option lists and single neighbours; ties, zero and negative costs, and energies just below a cost are not enumerated.",
  ["emerge/decision/simple.go", "emerge/goal/manager.go", "emerge/agent/agent.go"], "ratio maximisation, circular interpolation, acceptance gate", "agent state, context", "chosen option, proposal and acceptance, state before and after")

p("C19", "Batching neither loses, duplicates nor invents work",
  "Every task submitted while the batch queue has room and no reset intervenes is counted in exactly one processed batch, with no batch larger than 100 tasks and tasks submitted within one collection window sharing batches as far as the limit allows. The reported call, batch and cost totals are exactly those of the processed batches (each task at the single-call price without, each batch at half that price with synchronization), savings are their difference, and every batch counts once in the class (up to 10, 25, 50, 75, 100) of its size. A reset discards what is queued, zeroes all totals and never blocks.",
  ["histories", "schedules"], "every sequence and timing of submissions, processing and resets, every batch size",
  "One construction test exists; splitting at the limit, the collection window and resets racing with processing are untested.",
  ["simulations/emerge/simulation/batch_manager.go", "simulations/emerge/simulation/metrics.go", "simulations/emerge/simulation/agent.go"], "bounded queue, collection window, splitting", "queue, totals", "metrics after processing")

p("C20", "Pause freezes the simulation and control actions compose",
  "While a simulation that was started once is paused, and the step under way when it was paused has ended, agent phases, pending work and sent batches do not change on their own, and snapshots keep showing the coherence and phases of the moment of pausing; resuming continues it, and however often pause and resume are repeated or called redundantly, at most one synchronization is driving the agents and the next pause stops it. A reset clears all counters and work and puts the agents in the goal's documented worst starting state; a disruption turns exactly a fifth of the agents by half a turn and is flagged until the target is regained or its time limit passes, as a reset is for two seconds; of repeated ones the latest decides. The statistics' peak coherence is never below a coherence shown or final since the last reset, and a time to converge is given exactly when the peak reached 70 %. Every control action returns promptly and stopping ends all activity.",
  ["histories", "schedules"], "every sequence and timing of start, pause, resume, reset, disrupt, snapshot and stop",
  "The single simulation test only checks construction; redundant or overlapping control actions are never exercised.",
  ["simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/agent.go"], "cancel and restart of the swarm run under a lock", "paused flag, run context, caches", "snapshots and agent phases on a virtual clock")

p("C21", "The worker pool runs every job exactly once",
  "Every job submitted to a running worker pool is executed exactly once, submission never fails while workers make progress, never more jobs run at the same time than the pool has workers, and a slow job does not prevent the other workers from running theirs. Stopping the pool ends all its workers once their current jobs are finished.",
  ["schedules"], "every number of workers, every interleaving of submissions, slow jobs and the stop",
  "The pool has no tests; lost or doubled jobs and stranded workers depend on the schedule.",
  ["emerge/swarm/swarm.go"], "buffered queue and quit channel", "queue, workers", "job executions, goroutine exit")

p("C22", "Pooled agents come back clean",
  "An agent taken from the pool is immediately usable, carries the requested name, full energy, the default frequency (100 to 150 ms) and in-range quantities, has no neighbours and an empty context, and is never handed to two owners at once, whatever was done to it before it was returned. The pool's counters satisfy in-use = taken − returned, and a newly made agent is counted exactly when one is made.",
  ["histories", "schedules"], "every history of takes, uses and returns, also concurrent ones",
  "The pool has no tests; leftovers from a previous life show only after particular uses.",
  ["emerge/agent/pool.go", "emerge/agent/agent.go"], "reset on take, clear on return", "pooled agents, counters", "agent getters after a take, statistics")

p("C23", "Pattern comparison and completion stay sound",
  "The distance between patterns is zero exactly for equal phase (modulo a turn), coherence and, when the target has one, frequency, symmetric in phase and coherence, never above 1 for coherences in [0, 1], and maximal when a pattern is missing; the reported gaps are exactly the aspects that differ by more than their tolerance, and a pattern's own gaps exactly its phase jumps over a quarter turn and its relative frequency jumps over a half, each with a severity within [0, 1]. Completing a pattern without a matching template moves each open aspect by the smaller of its severity and one half of the way toward its target and leaves the others alone; when a template is closer than 0.7 the closest one is used, and the pattern moves the severity's share of the way toward it. Filled sequences contain exactly the requested number of phases, all on the circle, along the shorter arc between their ends.",
  ["inputs"], "every pair of patterns, every set of templates, every gap",
  "Completion has no tests and the pattern tests check single examples.",
  ["emerge/core/pattern.go", "emerge/completion/engine.go", "emerge/monitoring/patterns.go", "internal/emerge/pattern.go"], "weighted distance, severity-weighted interpolation", "patterns, templates", "results of the comparison and completion functions")

p("C24", "User controls act as documented in every state",
  "While the simulation runs, the pause control toggles between paused and running, the explicit resume control always leaves it running, reset and disrupt act exactly when it is not paused, and quit ends the run; selecting another goal, scale or pattern is reported once to the caller with the chosen value and ends the run, selecting the current one changes nothing, and keys without a meaning do nothing. The key shown for a goal or pattern selects it. Switching restarts the demo with the chosen value and everything else as it was, and quitting or a termination signal ends the program after any number of switches. No sequence of controls blocks the run or is applied twice.",
  ["histories"], "every sequence of control events in every state",
  "The runner has no tests and the keyboard tests check single keys.",
  ["simulations/emerge/ui/runner.go", "simulations/display/controller.go", "simulations/emerge/main.go", "simulations/emerge/config.go", "emerge/goal/config.go", "simulations/emerge/simulation/pattern/pattern.go"], "event loop dispatch", "paused flag, pending change", "calls on the simulation and the display")

p("C25", "Temporal patterns are compared and recognised consistently",
  "The similarity of two phase patterns lies in [0, 1], is symmetric, is 1 for a pattern with a period and itself, and 0 when either is missing, has no phases or neither has a period; it is 30 % the agreement of the amplitudes, 30 % that of the periods and 40 % the mean circular agreement of the phases, the last damped when the patterns' scales differ more than a hundredfold and 0 for different lengths. A template matches a pattern exactly when its base or any of its variations is at least as similar as its tolerance demands, and a library names the template whose base is most similar, with that similarity, or none when nothing is similar. A new pattern takes the mean of its frequencies as period and the spread of its phases as amplitude, with full confidence.",
  ["inputs"], "every pair of patterns of any length, amplitude and period, every template and library",
  "The tests compare a few hand-made pairs; zero amplitudes and periods, unequal lengths, extreme scales and several variations are not combined.",
  ["internal/emerge/pattern.go"], "weighted average of amplitude, period and phase agreement", "phases, period, amplitude", "similarity, match and identification results")

p("C26", "Request patterns produce the traffic they document",
  "Each simulated workload creates tasks only in the rhythm of its pattern: high-frequency traffic 2 to 4 tasks every 50 to 99 ms, bursts of 3 to 7 tasks every 100 ms during a burst, which lasts half a second to two seconds, and none in the quiet phase, a steady single task every 500 ms, mixed traffic 1 to 3 tasks at irregular times at least 200 ms apart, sparse traffic one task with at least two seconds in between; tasks accumulate until the workload's phase is near zero, when all of them are sent at once and the batch is counted. A simulation's swarm has the agents of its scale, moves at the pace of its goal and comes to rest early only at its target; one whose pattern is left open runs the best pattern for its goal, workloads take the goal's eight kinds in turn, and the activity shown follows the pattern. The coherence modifier of a pattern and goal lies in [0.5, 1.5] and has its documented value (1.3 for the excellent combinations down to 0.6 for the poor ones, lowered for sizes that do not suit it), and the best pattern of a goal has the goal's highest modifier at sizes without such adjustments; the compatibility ratings follow the modifier's documented thresholds. Goals, scales and patterns are catalogued consistently: names and keys are distinct, every scale's agent count belongs to that scale and grows with it.",
  ["histories", "configurations", "inputs"], "every pattern, goal and scale, every sequence of elapsed times",
  "The pattern tables and the generators have no tests; rates and quiet phases show only over time.",
  ["simulations/emerge/simulation/agent.go", "simulations/emerge/simulation/pattern/pattern.go", "simulations/emerge/simulation/builder.go", "emerge/goal/config.go", "emerge/scale/scale.go"], "per-pattern generators driven by elapsed time; tables", "pending tasks, burst state, last generation time", "snapshots and table functions")

p("C27", "Agents are built as their configuration says, in swarms of every size",
  "Building an agent from a configuration, whether for a small or a large swarm, gives it the configured energy, influence, stubbornness, frequency, phase and preferred phase, wrapped or clamped to their ranges, where a zero energy, influence, stubbornness or strategy rate means the default (100, 0.5, 0.2; 0.7 for nudging, 0.5 for locking) and a zero frequency one of 50 to 150 ms; quantities to be randomized differ from agent to agent, and the ready-made default and test configurations give the same, documented agent every time. Its moves are of the configured strategy and cover the configured share of the way to its preferred phase, never more than all of it. It perceives as density its neighbours per assumed or possible neighbours, always a finite non-negative number. A configuration naming an unknown component is refused with an error and gives no agent, and the agents of a swarm of any size are built so from the swarm's configuration.",
  ["configurations", "inputs"], "every configuration of components, values, defaults and randomization, at sizes on both sides of the storage threshold",
  "The tests build a few fully configured agents and never the large-swarm variant, unknown components beyond single examples, or defaults in combination.",
  ["emerge/agent/builder.go", "emerge/agent/agent.go", "internal/config/agent.go", "emerge/swarm/swarm.go"], "component factories and options applied in order", "agent quantities, strategy, assumed neighbours", "getters, proposals and perceived context of the built agent")

p("C28", "Attractor basins pull along the shorter way and never past the target",
  "A state's distance to a basin's target is its distance on the circle, and it is inside exactly when that is at most the basin's radius. The attraction is zero outside, equals the basin's strength (clamped to [0, 1]) at the target and decreases in proportion to the distance down to zero at the edge, for phases on the circle. The suggested adjustment goes the shorter way toward the target by the attraction's share of the distance, or by a hundredth of it where there is no attraction, never past the target. The estimated rate of convergence is the attraction lowered by the relative difference of the frequencies, never negative, and zero on or outside the edge.",
  ["inputs"], "every target and state on the circle, every strength and radius, every pair of frequencies",
  "The tests check single states of one basin; edges, zero radii and states across the zero phase are not combined.",
  ["internal/emerge/basin.go"], "linear fall-off of the attraction with circular distance", "target, strength, radius", "results of the basin's functions")

p("C29", "Every synchronization update leads the swarm toward its goal as configured",
  "At each update of a synchronization attempt that has not reached its target, every agent that is farther from the goal phase than the idle band is moved the shorter way by a share of its distance that grows with the distance of the coherence from its target (0.1 of it very near, at least 0.4 far away), together with a part of what the swarm's mean still lacks, with a random variation bounded by the configured range, never in lock-step; agents within the idle band stay or, above the moderate coherence, wander by at most the configured perturbation. When the swarm is coherent but spread beyond the configured variance, agents farther than the pattern distance threshold are drawn by nine tenths of 1.2 times the base share. When it is very coherent and not spread, only a third of the agents are drawn, by a fifth of the share, and the others wander by at most the configured random walk. A target below 0.4 that is exceeded is answered by scattering all agents by at most 0.15 of a half turn either way. Where the mean frequency is off by more than a twentieth, frequencies are moved toward the goal's by the severity's share, except where they would not stay positive. An attempt without progress is shaken: the configured share of the agents, at least one, is moved by at most half the configured noise. An undisturbed attempt with a target of at least 0.4 brings the coherence near the target (0.8 where it is higher) within sixty updates from every start.",
  ["inputs", "histories", "configurations"], "every arrangement of phases and frequencies, every goal, goal configuration and swarm size, every update of an attempt",
  "The tests run whole attempts and look at the coherence at the end; a wrong share, threshold, direction or branch of the update is hidden by later updates and by randomness.",
  ["emerge/swarm/goal_directed.go", "emerge/completion/engine.go", "emerge/core/pattern.go", "emerge/core/phase.go"],
  "measure, complete the pattern, move each agent, shake when stuck", "phases and frequencies of all agents, stuck counter", "agents before and after each update interval")

p("C30", "The displays show the latest snapshot faithfully",
  "After every update the terminal display shows exactly the snapshot it was given, for the configuration selected: elapsed time, goal, pattern and name; one row per workload (at most ten, and how many more there are) with its name, queue, overload mark and batches sent; the pause, disruption and reset flags; the costs and savings; the goal's own metrics with their status word; and the goal's panel, gauges and movement view. What a panel says of a workload's timing (synced, near or far; early, on time or late; its server, vote, latency class or health) depends only on where its phase lies on the circle relative to the beat, so that workloads equally far before and after the beat look alike. The coherence chart grows by one point per update, keeps the last fifty and stands still while paused. The menu and the welcome screen mark the selected goal and recommend exactly the patterns and scales that the catalogue recommends. A summary replaces the workloads' data by the final statistics. No snapshot, not even one without workloads, makes the display fail. The text display prints at most one line per second, the first one at once, with the snapshot's numbers, and runs until it is told to end.",
  ["inputs", "histories"], "every snapshot, goal, scale and pattern, every order of configuration, welcome, update and summary",
  "The tests call the drawing functions without a terminal and never look at what is shown; thresholds, wrap-around of phases and panels of other goals are not exercised.",
  ["simulations/display/display.go", "simulations/display/text_display.go"],
  "redraw of every panel from one snapshot under the display's lock", "configuration, latest snapshot, chart history", "characters and colours on the terminal, printed lines")

p("C31", "What is said about a finished run is what happened",
  "A run's diagnosis calls it a success exactly when its final coherence reached the target, and then suggests nothing; otherwise it names what stood out first (stuck in more than a third of the allowed iterations, less than 0.1 gained, less than 0.1 short of the target, or else a general failure), shows the coherence reached and only measured percentages, and gives at least two different suggestions, with further ones for batch runs that are stuck. The words for a coherence change at 0.2, 0.4, 0.6 and 0.8 in every vocabulary alike, so that more coherence is never described by lesser words, the words for a run's length change at 30, 60 and 90 % of the allowed iterations, and emojis never change the words.",
  ["inputs"], "every combination of coherences, targets, counts and modes, on and around every threshold",
  "The tests try one or two values inside each class and not the order of the classes nor the thresholds.",
  ["internal/analysis/diagnostics.go", "internal/analysis/quality.go"],
  "classification of a run's statistics", "initial and final coherence, target, stuck and total iterations", "summary, suggestions and descriptions returned")

p("C32", "Chance is even and as likely as configured",
  "Random fractions, phases and whole numbers stay within their documented range (at least the lower, below the upper end), are spread evenly over it, are independent of each other and repeat no more often than chance, also when drawn concurrently; nothing is drawn from an empty range. So are the phases and preferred phases of new, randomly configured and pooled agents, and the phases of new and of disrupted swarms. An agent takes up a proposal with the probability (1 - stubbornness) x confidence x acceptance, always or never where that is certain, and two agents of a new swarm are connected at least as often as the configured probability and no more often than two attempts at it would connect them, apart from the configured minimum.",
  ["inputs", "histories"], "every sequence of draws, every stubbornness, confidence, acceptance and probability",
  "A single draw proves nothing: the tests check ranges of a few draws, never a distribution.",
  ["internal/random/random.go", "emerge/agent/agent.go", "emerge/agent/pool.go", "emerge/agent/builder.go", "emerge/swarm/swarm.go"],
  "drawing by rejection; refusing and accepting as independent draws", "source of random bits, stubbornness, confidence", "values drawn, proposals taken up, phases and connections of new swarms")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
