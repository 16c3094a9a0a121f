------------------------------ MODULE WorkPool -------------------------------
(* A pool of W workers that runs submitted jobs.  A job that was let go runs  *)
(* to its end as soon as a worker has it; other jobs keep their worker.       *)
EXTENDS Base

\* What must be seen once nothing moves any more: s.w workers, s.held the
\* submitted jobs that were not let go, s.free the submitted jobs that were.
Busy(s) == Min2(s.w, Cardinality(s.held))
\* a worker is left for the jobs that were let go
Room(s) == Cardinality(s.held) < s.w
=============================================================================
