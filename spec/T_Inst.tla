------------------------------- MODULE T_Inst -------------------------------
(* Trace specification of PCTMC instantiation histories.                      *)
EXTENDS Inst, T_Common, TraceBase
Elems(s) == { s[i] : i \in 1..Len(s) }
Rates(m) == { m.expr[i][j] : i \in 1..Len(m.expr), j \in 1..Len(m.expr) }
Same(env,m) == LET e == EnvOf(m.pvals) IN DOMAIN e = DOMAIN env /\ \A n \in DOMAIN e : Close(e[n],env[n])
\* everything but the valuation is constant; the other models do not move at all
Fixed(a,b) == a.expr = b.expr /\ a.lab = b.lab /\ a.pnames = b.pnames /\ a.pidx = b.pidx /\ a.init = b.init /\ a.sync = b.sync /\ a.name = b.name
Others(ev,o,but) == F(~\E i \in 1..Len(ev.post) : ev.post[i].id # but /\ ev.post[i].obj # o[ev.post[i].id], "other-model-changed")
\* rates that cancel to exactly 0: floating-point evaluation may see either sign
RECURSIVE HasAdd(_)
HasAdd(e) == e.t = "add" \/ \E i \in 1..Len(e.a) : HasAdd(e.a[i])
Cancel(e,env) == Defined(e,env) /\ HasAdd(e) /\ Eval(e,env)[1] = 0
InstFails(ev,o) ==
  LET m == o[ev.m]  p == PostOf(ev,ev.m)  env == EnvOf(m.pvals)
      valid == Valid(Rates(m), Elems(m.pnames), env, ev.pv)
      either == valid /\ \E e \in Rates(m) : Cancel(e, Apply(env,ev.pv))
      ok == IF either THEN ev.res ELSE valid IN
  IF ev.exc # "" THEN {"raised"} ELSE
  F(ev.res = ok, "verdict") \cup F(Fixed(m,p), "structure-changed")
  \cup F(Same(IF ok THEN Apply(env,ev.pv) ELSE env, p), IF ok THEN "not-applied" ELSE "rejected-but-applied")
  \cup Others(ev,o,ev.m)
\* random instantiation of ev.ps (or all uninstantiated) within [lo,hi]; ev.given: bounds were given
RandFails(ev,o) ==
  LET m == o[ev.m]  p == PostOf(ev,ev.m)  e0 == EnvOf(m.pvals)  e1 == EnvOf(p.pvals)
      ps == IF ev.all THEN Elems(m.pnames) \ DOMAIN e0 ELSE Elems(ev.ps)
      lo == IF ev.given THEN ev.lo ELSE FoldLeft(LAMBDA a,x : RMin(a,x.v), ROf(1000), m.pvals)
      hi == IF ev.given THEN ev.hi ELSE FoldLeft(LAMBDA a,x : RMax(a,x.v), RZero, m.pvals)
      tol == RFrac(1,1000000000) IN
  IF ev.exc # "" THEN {"raised"} ELSE
  F(DOMAIN e1 = DOMAIN e0 \cup ps, "wrong-parameters")
  \cup F(\A n \in DOMAIN e0 \ ps : n \in DOMAIN e1 /\ e1[n] = e0[n], "other-parameter-changed")
  \cup F(\A n \in ps \cap DOMAIN e1 : RLe(RSub(lo,tol),e1[n]) /\ RLe(e1[n],RAdd(hi,tol)), "bounds")
  \cup F(RatesOK(Rates(m), e1), "negative-rate") \cup F(Fixed(m,p), "structure-changed") \cup Others(ev,o,ev.m)
QFails(ev,o) ==
  LET m == o[ev.m]  env == EnvOf(m.pvals)  e == m.expr[ev.s+1][ev.t+1]
      row == UNION { Syms(m.expr[ev.s+1][j]) : j \in 1..Len(m.expr) }
      rowdef == row \subseteq DOMAIN env
      Ex == RSum([j \in 1..Len(m.expr) |-> Eval(m.expr[ev.s+1][j],env)])
      cancel == \E j \in 1..Len(m.expr) : Cancel(m.expr[ev.s+1][j],env)
      \* a rate with uninstantiated parameters is symbolic unless they do not matter (p * 0)
      fill(en,x) == [n \in DOMAIN en \cup Syms(e) |-> IF n \in DOMAIN en THEN en[n] ELSE x]
      val(en) == IF Defined(e,en) THEN F(ev.num /\ Close(ev.res,Eval(e,en)), "value")
                 ELSE F(~ev.num \/ (Close(ev.res,Eval(e,fill(en,ROf(3)))) /\ Close(ev.res,Eval(e,fill(en,ROf(7))))), "value-of-uninstantiated") IN
  Others(ev,o,"") \cup
  (CASE ev.q \in {"transitionValue","evaluateTransition"} -> IF ev.exc # "" THEN {"raised"} ELSE val(env)
    [] ev.q = "evaluateTransition_with" -> IF ev.exc # "" THEN {"raised"} ELSE val(EnvOf(ev.pv))
    [] ev.q = "l" -> IF ev.exc # "" THEN {"raised"} ELSE IF m.lab[ev.s+1] # ev.obs THEN F(ev.num /\ ev.res = RZero, "value") ELSE val(env)
    [] ev.q = "e" -> IF ~rowdef THEN F(ev.exc = "ValueError", "rate-of-uninstantiated")
                     ELSE IF ev.exc # "" THEN {"raised"} ELSE F(ev.num /\ Close(ev.res,Ex), "value")
    [] ev.q = "tau" -> IF ev.exc # "" THEN {"raised"} ELSE IF ~rowdef THEN F(~ev.num, "value-of-uninstantiated")
                       ELSE F((ev.num /\ Close(ev.res, IF m.lab[ev.s+1] # ev.obs \/ Ex[1] = 0 THEN RZero ELSE RDiv(Eval(e,env),Ex))) \/ (cancel /\ Ex[1] = 0), "value")
    [] ev.q = "expected_time" -> IF ev.exc # "" THEN {"raised"} ELSE IF ~rowdef THEN F(~ev.num, "value-of-uninstantiated")
                       ELSE F(IF Ex[1] = 0 THEN IsPosInf(ev.res) \/ cancel ELSE ev.num /\ Close(ev.res,RInv(Ex)), "value")
    [] ev.q = "isInstantiated" -> F(ev.exc = "" /\ ev.b = (Elems(m.pnames) \subseteq DOMAIN env), "value")
    [] ev.q = "isInstantiated_s" -> F(ev.exc = "" /\ ev.b = rowdef, "value")
    [] ev.q = "isInstantiated_st" -> F(ev.exc = "" /\ ev.b = Defined(e,env), "value")
    [] ev.q = "isInstantiated_p" -> F(ev.exc = "" /\ ev.b = (ev.p \in DOMAIN env), "value")
    [] ev.q = "parameterValue" -> IF ev.exc # "" THEN {"raised"} ELSE IF ev.p \in DOMAIN env THEN F(ev.res = env[ev.p], "value") ELSE F(IsNaN(ev.res), "value")
    [] ev.q = "parameterIndexes" -> F(ev.exc = "" /\ Elems(ev.ix) = { << i-1,j-1 >> : i \in 1..Len(m.expr), j \in 1..Len(m.expr) }
                                        \cap { << i-1,j-1 >> : << i,j >> \in { x \in (1..Len(m.expr)) \X (1..Len(m.expr)) : ev.p \in Syms(m.expr[x[1]][x[2]]) } }, "value")
    [] ev.q = "involved" -> F(ev.exc = "" /\ Elems(ev.names) = row /\ Len(ev.names) = Cardinality(row), "value")
    [] ev.q = "involved_t" -> F(ev.exc = "" /\ Elems(ev.names) = Syms(e) /\ Len(ev.names) = Cardinality(Syms(e)), "value")
    [] ev.q = "loglik" -> F((ev.exc = "") <=> (Elems(m.pnames) \subseteq DOMAIN env), "loglikelihood-of-uninstantiated")
    [] ev.q = "run" -> F((ev.exc = "") => rowdef, "run-of-uninstantiated"))
IFails(ev,o) ==
  CASE ev.op = "inst" -> InstFails(ev,o)
    [] ev.op = "rand" -> RandFails(ev,o)
    [] ev.op = "query" -> QFails(ev,o)
Next == Consume(IFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
