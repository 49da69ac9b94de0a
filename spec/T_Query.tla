------------------------------ MODULE T_Query ------------------------------
(* Trace specification of queries: right answers, and nothing changes.        *)
EXTENDS Query, T_Common, TraceBase, FiniteSets
Elems(s) == { s[i] : i \in 1..Len(s) }
\* Sets are compared as multisets
SetBag(s) == { << s.ms[i].tr, s.ms[i].n >> : i \in 1..Len(s.ms) }
Moved(ev,o) == \E i \in 1..Len(ev.post) :
   LET p == ev.post[i].obj  q == o[ev.post[i].id] IN
   IF q.k = "SET" THEN p.t # q.t \/ Len(p.ms) # Len(q.ms) \/ SetBag(p) # SetBag(q) ELSE p # q
Pure(ev,o) == F(~Moved(ev,o), "modified-by-query")

\* values: ev.m, ev.s, ev.t (states), ev.obs, ev.act, ev.res
Num(ev,want) == F(Close(ev.res,want), "value")
\* exceptions: everything but an index outside the model is answered
ValueFails(ev,o) ==
  LET m == o[ev.m] IN
  CASE ev.q = "tau" -> Num(ev, TauOf(m,ev.s,ev.t,ev.obs,ev.act))
    [] ev.q = "a" -> F(ev.res = AOf(m,ev.s,ev.t,ev.act), "value")
    [] ev.q = "b" -> IF m.k = "GOHMM" THEN F(CloseT(ev.res, BOf(m,ev.s,ev.obs), RFrac(1,10000000), RFrac(1,1000000)), "value")
                     ELSE F(ev.res = BOf(m,ev.s,ev.obs), "value")
    [] ev.q = "l" -> Num(ev, LOf(m,ev.s,ev.t,ev.obs))
    [] ev.q = "e" -> Num(ev, ExitOf(m,ev.s))
    [] ev.q = "lkl" -> Num(ev, LklOf(m,ev.s,ev.d))
    [] ev.q = "expected_time" -> IF ExitOf(m,ev.s)[1] = 0 THEN F(IsPosInf(ev.res), "value") ELSE Num(ev, RInv(ExitOf(m,ev.s)))
    [] ev.q = "pi" -> F(ev.res = m.init[ev.s+1], "value")
    [] ev.q = "mu_n" -> F(ev.res = m.out[ev.s+1][ev.t+1][1], "value")
    [] ev.q = "mu" -> F(ev.res = [i \in 1..Len(m.out[ev.s+1]) |-> m.out[ev.s+1][i][1]], "value")
    [] ev.q = "b_n" -> F(CloseT(ev.res, NormalPdf(ev.d, m.out[ev.s+1][ev.t+1][1], m.out[ev.s+1][ev.t+1][2]), RFrac(1,10000000), RFrac(1,1000000)), "value")
    [] ev.q = "getLabel" -> F(ev.res = m.lab[ev.s+1], "value")
    [] ev.q = "getAlphabet" -> F(Elems(ev.res) = (IF m.k = "HMM" THEN Elems(m.alpha) ELSE Elems(m.lab)) /\ Cardinality(Elems(ev.res)) = Len(ev.res), "value")
    [] ev.q = "getAlphabet_s" -> F(Elems(ev.res) = { m.alpha[i] : i \in {j \in 1..Len(m.alpha) : m.out[ev.s+1][j][1] # 0} } /\ Cardinality(Elems(ev.res)) = Len(ev.res), "value")
    [] ev.q = "getActions" -> F(ev.res = m.acts, "value")
    [] ev.q = "getActions_s" -> F(Elems(ev.res) = ActionsOf(m,ev.s) /\ Cardinality(Elems(ev.res)) = Len(ev.res), "value")
    [] ev.q = "toMC" -> F(LET w == JumpMC(m) IN ev.res.k = "MC" /\ ev.res.lab = w.lab /\ CloseMat(ev.res.mat,w.mat) /\ CloseSeq(ev.res.init,w.init), "value")
    \* nothing to compare: only absence of effects
    [] ev.q = "effect" -> {}
    [] ev.q = "loglik" -> LET S == o[ev.set]  timed == S.t = 4
                              ps == Probs(m,S.ms,timed)
                          IN IF \E i \in 1..Len(ps) : ps[i][1] # 0
                             THEN F(Close(ev.res, RDiv(SumLogs(ps,S.ms),ROf(Total(S.ms)))), "value") ELSE {}
    \* the same question twice
    [] ev.q = "again" -> F(ev.same, "answer-changed")

QFails(ev,o) ==
  CASE ev.op = "query" -> (IF ev.exc # "" THEN {"raised"} ELSE ValueFails(ev,o)) \cup Pure(ev,o)
    [] ev.op = "badindex" -> F(ev.exc \in {"IndexError","TypeError"}, "accepts-bad-index") \cup Pure(ev,o)
Next == Consume(QFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
