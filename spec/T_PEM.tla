-------------------------------- MODULE T_PEM --------------------------------
(* recorded iterations of the learning of PCTMCs                              *)
EXTENDS PEM, TraceBase
Elems(q) == { q[i] : i \in 1..Len(q) }
\* labels of every state occur in the traces: fit_parameters keeps the whole model
Covered(m,S) == \A s \in 1..Size(m) : \E i \in 1..Len(S.ms) : \E k \in 1..Len(S.ms[i].tr) : (S.t # 4 \/ k % 2 = 1) /\ S.ms[i].tr[k] = m.lab[s]
StepFails(ev,o,fixed,upd) ==
  LET m == o[ev.m]  S == o[ev.s]  timed == S.t = 4
      qs == IF InScopeP(m) THEN Posts(Denotes(m),S.ms,timed) ELSE << >>
  IN IF qs = << >> \/ (\E i \in 1..Len(qs) : TooSmall(qs[i].p.P)) THEN {}
     ELSE IF ev.exc # "" THEN {"raised"}
     ELSE LET n == PostOf(ev,ev.m) IN
          IF ~PFrame(m,n) THEN {"frame"}
          ELSE PStep(m,n,qs,timed,fixed,upd)
               \cup F(Close(ev.ll,TotalLogLik(qs)), "reported-loglikelihood")
               \cup F(~Changed(ev,o,{ev.m}), "modified-other")
SameP(a,b) == PFrame(a,b) /\ (\A p \in DOMAIN Env(a) : Close(Env(a)[p],Env(b)[p])) /\ CloseMat(Denotes(a).mat,Denotes(b).mat)
PFails(ev,o) ==
  CASE ev.op = "bw" -> StepFails(ev,o,Elems(ev.fixed),ev.upd)
    [] ev.op = "fitp" -> \* some parameters only; the result lists their values
         LET m == o[ev.m] IN
         IF ~Covered(m,o[ev.s]) THEN {}
         ELSE StepFails(ev,o,Elems(m.pnames) \ Elems(ev.upds),FALSE)
              \cup (IF ev.exc # "" THEN {} ELSE F(LET r == EnvOf(ev.pv)  n == Env(PostOf(ev,ev.m)) IN
                      DOMAIN r = Elems(ev.upds) /\ \A p \in DOMAIN r : r[p] = n[p], "returned-values"))
    [] ev.op = "fitnon" -> \* the uninstantiated parameters only, from random values within bounds
         IF ev.exc # "" THEN {"raised"} ELSE
         LET m == o[ev.m]  r == EnvOf(ev.pv)  new == Elems(m.pnames) \ DOMAIN Env(m)  n == Env(PostOf(ev,ev.m)) IN
         F(DOMAIN r = new /\ (\A p \in new : IsFin(r[p]) /\ r[p][1] >= 0 /\ (ev.its = 0 => RLe(ev.lo,r[p]) /\ RLe(r[p],ev.hi)))
           /\ \A p \in DOMAIN Env(m) : p \in DOMAIN n /\ n[p] = Env(m)[p], "non-instantiated")
         \cup F([PostOf(ev,ev.m) EXCEPT !.pvals = m.pvals] = m \/ ~Covered(m,o[ev.s]), "frame")
    [] ev.op = "start" -> \* random instantiation before learning
         IF ev.exc # "" THEN {"raised"} ELSE
         LET m == o[ev.m]  n == PostOf(ev,ev.m) IN
         F(/\ DOMAIN Env(n) = Elems(m.pnames)
           /\ \A p \in Elems(m.pnames) : IF p \in DOMAIN Env(m) THEN Env(n)[p] = Env(m)[p] ELSE RLe(ev.lo,Env(n)[p]) /\ RLe(Env(n)[p],ev.hi), "start")
         \cup F([n EXCEPT !.pvals = m.pvals] = m, "frame")
    [] ev.op = "mono" ->
         IF ev.exc # "" THEN {"raised"} ELSE
         F(\A i \in 1..(Len(ev.lls)-1) : IsFin(ev.lls[i]) /\ IsFin(ev.lls[i+1]) /\
            RLe(RSub(ev.lls[i], RMul(RFrac(1,1000000),RAdd(ROne,RAbs(ev.lls[i])))), ev.lls[i+1]), "likelihood-decreased")
    [] ev.op = "multi" -> \* k iterations at once are k times one iteration
         IF ev.exc # "" THEN {"raised"} ELSE F(SameP(o[ev.m],ev.res), "iterations")
    [] ev.op = "rates" ->
         IF ev.exc # "" THEN {"raised"} ELSE F(CloseMat(ev.vals,Denotes(o[ev.m]).mat), "rates") \cup F(~Changed(ev,o,{}), "modified-by-query")
Next == Consume(PFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
