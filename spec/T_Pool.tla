------------------------------- MODULE T_Pool -------------------------------
(* Trace specification: the same question asked under different worker        *)
(* counts, completion orders, code paths and groupings has one answer.        *)
EXTENDS EM, TraceBase

ModelClose(a,b) ==
  /\ a.k = b.k
  /\ (IF a.k = "MDP" THEN CloseMat3(a.mat,b.mat) ELSE CloseMat(a.mat,b.mat))
  /\ CloseSeq(a.init,b.init)
  /\ (a.k = "HMM" => CloseMat(a.out,b.out) /\ a.alpha = b.alpha)
  /\ (a.k = "GOHMM" => CloseMat3(a.out,b.out))
  /\ (a.k \in {"MC","MDP","CTMC"} => a.lab = b.lab)
\* ev.m, ev.s as named objects; ev.runs: sequence of [cfg, exc, res, obj]
SomePossible(ev,o) ==
  o[ev.m].k = "GOHMM" \/
  \E i \in 1..Len(o[ev.s].ms) : Prob(TrellisFor(o[ev.m], o[ev.s].ms[i].tr, o[ev.s].t = 4))[1] # 0
Ref(ev) == LET ok == SelectSeq(ev.runs, LAMBDA r : r.exc = "") IN IF ok = << >> THEN ev.runs[1] ELSE ok[1]
PoolFails(ev,o) ==
  IF ~SomePossible(ev,o) THEN {}
  ELSE LET ref == Ref(ev)
           one(r) == IF r.exc # "" THEN {r.cfg \o ":raised"}
                     ELSE F(Close(r.res,ref.res), r.cfg \o ":value")
                          \cup (IF ev.op = "bw_runs" THEN F(ModelClose(r.obj,ref.obj), r.cfg \o ":model") ELSE {})
       IN UNION { one(ev.runs[i]) : i \in 1..Len(ev.runs) }
Next == Consume(PoolFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
