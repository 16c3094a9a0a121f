--------------------------- MODULE AnalysisTrace ----------------------------
EXTENDS Analysis, TraceLib
CONSTANTS TwoPi, Tol
TraceInit0(h) == 0
Shows(p, c) == AbsA(1000 * p - c) <= 501
DiagJ(e) ==
  First(<<Need(e.class \in Diagnoses(e.ini, e.fin, e.tgt, e.stuck, e.max), "the diagnosis is not what stands out"),
          Need(e.nums = <<>> \/ \A k \in 1..Len(e.nums) : \E c \in {e.ini, e.fin, e.tgt} : Shows(e.nums[k], c), "a percentage shown was not measured"),
          Need(\E k \in 1..Len(e.nums) : Shows(e.nums[k], e.fin), "the coherence reached is not shown"),
          Need((e.class = "ok") = (e.sug = 0), "suggestions are made after a success or missing after a failure"),
          Need(e.class = "ok" \/ e.sug >= 2, "suggestions are missing"),
          Need(e.kinds = e.sug, "a suggestion is empty or given twice"),
          Need(e.class # "stuck" \/ (IF e.batch THEN e.sug >= 5 ELSE e.sug < 5), "batch runs that are stuck get no more advice than others")>>)
WordsJ(e) == First(<<Need(\A k \in 1..Len(e.ranks) : e.ranks[k] = Rank(e.c), "a coherence is described by the wrong words"),
                     Need(e.same, "emojis change the words")>>)
TraceStep(s, e) ==
  CASE e.op = "diag" -> Ver(s, <<For("C31", DiagJ(e))>>)
    [] e.op = "words" -> Ver(s, <<For("C31", WordsJ(e))>>)
    [] e.op = "pace" -> Ver(s, <<For("C31", Need(e.rank = Pace(e.n, e.max), "a run's speed is described by the wrong words"))>>)
=============================================================================
