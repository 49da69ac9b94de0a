----------------------------- MODULE T_Convert -----------------------------
EXTENDS Convert, TraceBase
\* an instantiated PCTMC denotes a CTMC: ev.m names its record
\* the same model up to actions that are available nowhere
SameModel(a,b) == IF a.k # "MDP" THEN ObjClose(a,b)
  ELSE b.k = "MDP" /\ a.lab = b.lab /\ CloseSeq(a.init,b.init) /\ \A s,t \in 1..Size(a) : Agree(a,b,s,t,s,t)
CvFails(ev,o) ==
  IF ev.exc # "" THEN {"raised"} ELSE
  CASE ev.op = "to_storm" -> ToStorm(o[ev.m],ev.h)
    [] ev.op = "from_storm" -> FromStorm(ev.h,ev.names,ev.drop,ev.res)
    [] ev.op = "back" -> \* to Storm and back, naming the actions: the same model
         F(LET m == o[ev.m] IN ev.res.k = m.k /\ ev.res.lab = m.lab /\ ObjClose(ev.res,m), "round-trip")
    [] ev.op = "prism" -> F(Iso(o[ev.m],ev.res), "prism-round-trip")
    [] ev.op = "load" -> FromStorm(ev.h,ev.names,TRUE,ev.res)
    [] ev.op = "fit" -> ToStorm(ev.res,ev.h) \cup F(SameModel(ev.res,ev.res2), "storm-initial-model")
    [] ev.op = "reject" -> {"accepted"}
Fails(ev,o) == (IF ev.op = "reject" THEN F(ev.exc # "" /\ ev.exc # "Timeout", "accepted") ELSE CvFails(ev,o)) \cup F(~Changed(ev,o,{}), "modified-by-conversion")
Next == Consume(Fails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
