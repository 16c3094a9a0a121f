---------------------------- MODULE ChanceTrace -----------------------------
EXTENDS Chance, TraceLib
CONSTANTS TwoPi, One, Tol
TraceInit0(h) == 0
SpreadJ(e) == First(<<Need(e.outside = 0, "a random quantity leaves its range"),
                      Need(Even(e.counts, e.each), "a random quantity is not spread evenly"),
                      Need(e.kinds > 16 * e.each - 40 \/ e.what = "int31", "random quantities repeat")>>)
\* so many of 4096 proposals, within eight standard deviations and always or never where it is certain
ProposeJ(e) == LET p == Takes(e.stub, e.conf, e.acc)
                   want == ((p \div 100) * 4096) \div 10000
               IN  First(<<Need(p > 0 \/ e.taken = 0, "an agent takes up what it must refuse"),
                           Need(p < 1000000 \/ e.taken = 4096, "an agent refuses what it must take up"),
                           Need(AbsC(e.taken - want) <= 258, "an agent does not take up proposals as often as its stubbornness, confidence and acceptance say")>>)
\* either agent of a pair may make the connection; each has at least one
LinksJ(e) == LET slack == 8 * (CHOOSE r \in 0..e.pairs : 4 * r * r <= e.pairs /\ 4 * (r + 1) * (r + 1) > e.pairs) + 3 * e.n
                 least == (e.pairs * e.pct) \div 100
                 most == (e.pairs * (10000 - (100 - e.pct) * (100 - e.pct))) \div 10000
             IN  First(<<Need(e.linked >= least - (IF e.pct = 100 THEN 0 ELSE slack), "agents are connected too rarely"),
                         Need(e.linked <= most + slack, "agents are connected too often")>>)
TraceStep(s, e) ==
  CASE e.op = "spread" -> Ver(s, <<For("C32", SpreadJ(e))>>)
    [] e.op = "none" -> Ver(s, <<For("C32", Need(~e.drew, "a number is drawn from an empty range"))>>)
    [] e.op = "links" -> Ver(s, <<For("C32", LinksJ(e))>>)
    [] e.op = "propose" -> Ver(s, <<For("C32", ProposeJ(e))>>)
=============================================================================
