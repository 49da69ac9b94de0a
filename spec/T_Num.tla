------------------------------- MODULE T_Num -------------------------------
(* Trace specification of likelihood queries and Baum-Welch iterations.      *)
EXTENDS EM, TraceBase

\* --- objects: models (Models.tla records) and multisets [k |-> "SET", t, ms]
SetT(o,id) == o[id].t = 4

NoExc(ev) == F(ev.exc = "", "raised")
Pure(ev,o) == F(~Changed(ev,o,{}), "modified-by-query")

\* Assumption on GoHMM: densities are compared only while every deviation is at least 1/1000
\* and every observation within 15 deviations of every mean (no underflow of the floats).
InScope(m,S) ==
  m.k = "GOHMM" => \A s \in 1..N(m) : \A i \in 1..Len(m.out[s]) :
     /\ IsFin(m.out[s][i][1]) /\ IsFin(m.out[s][i][2]) /\ RLe(RFrac(1,1000), m.out[s][i][2])
     /\ \A q \in 1..Len(S.ms) : \A k \in 1..Len(S.ms[q].tr) :
          RLt(RAbs(RSub(S.ms[q].tr[k][i], m.out[s][i][1])), RMul(ROf(15), m.out[s][i][2]))

\* ev.m model, ev.s set, ev.res result
LogLikFails(ev,o) ==
  IF ~InScope(o[ev.m], o[ev.s]) THEN {}
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE LET m == o[ev.m]  S == o[ev.s]
           ps == Probs(m, S.ms, SetT(o,ev.s))
           possible == \E i \in 1..Len(ps) : ps[i][1] # 0
           want == RDiv(SumLogs(ps,S.ms), ROf(Total(S.ms)))
       IN IF \E i \in 1..Len(ps) : TooSmall(ps[i]) THEN {}
          ELSE IF possible THEN F(Close(ev.res, want), "loglikelihood")
          ELSE F(Close(ev.res, RZero) \/ (SetT(o,ev.s) /\ Close(ev.res, ROf(-9999))), "loglikelihood-impossible")

SameShape(a,b) ==
  /\ a.k = b.k /\ Len(a.init) = Len(b.init) /\ Len(a.mat) = Len(b.mat)
  /\ \A s \in 1..Len(b.mat) : Len(a.mat[s]) = Len(b.mat[s])
\* one Baum-Welch iteration: ev.m updated in place by set ev.s, ev.ll reported
RowsOf(m) == IF m.k = "MDP" THEN UNION { {m.mat[s][a] : a \in 1..Len(m.mat[s])} : s \in 1..Len(m.mat) }
             ELSE {m.mat[s] : s \in 1..Len(m.mat)}
StochOK(m) == CASE m.k = "CTMC" -> \A r \in RowsOf(m) : \A i \in 1..Len(r) : IsFin(r[i]) /\ r[i][1] >= 0
                [] m.k = "HMM" -> /\ \A r \in RowsOf(m) \cup {m.out[s] : s \in 1..N(m)} \cup {m.init} : RowOK(r)
                [] OTHER -> \A r \in RowsOf(m) \cup {m.init} : RowOK(r)
ZerosKept(old,new) ==
  IF old.k = "MDP"
  THEN \A s \in 1..N(old) : \A a \in 1..Len(old.mat[s]) : \A u \in 1..N(old) :
          old.mat[s][a][u][1] = 0 => new.mat[s][a][u][1] = 0
  ELSE /\ \A s \in 1..N(old) : \A u \in 1..N(old) : old.mat[s][u][1] = 0 => new.mat[s][u][1] = 0
       /\ (old.k = "HMM" => \A s \in 1..N(old) : \A u \in 1..Len(old.alpha) :
             old.out[s][u][1] = 0 => new.out[s][u][1] = 0)
MatClose(k,a,b) == IF k = "MDP" THEN CloseRelMat3(a,b) ELSE CloseRelMat(a,b)
\* density models: the posterior weights of tiny masses are less accurate
OutClose(m,new,want) ==
  CASE m.k = "HMM" -> CloseRelMat(new.out, want.out)
    [] m.k = "GOHMM" -> CloseMat3(new.out, want.out)
    [] OTHER -> TRUE
Frame(old,new) ==
  CASE old.k \in {"MC","CTMC"} -> new.lab = old.lab /\ new.init = old.init
    [] old.k = "MDP" -> new.lab = old.lab /\ new.init = old.init /\ new.acts = old.acts
    [] old.k = "HMM" -> new.alpha = old.alpha
    [] OTHER -> TRUE
BWFails(ev,o) ==
  LET old == o[ev.m]  S == o[ev.s]  timed == SetT(o,ev.s)
      qs == IF InScope(old,S) THEN Posts(old, S.ms, timed) ELSE << >>
  IN IF qs = << >> \/ (\E i \in 1..Len(qs) : TooSmall(qs[i].p.P)) THEN {}                    \* nothing to learn from: unspecified
     ELSE IF ev.exc # "" THEN {"raised"}
     ELSE LET new == PostOf(ev,ev.m)
              want == StepWith(old, qs, timed, ev.fixed)
          IN IF ~SameShape(new,old) THEN {"shape"}
             ELSE F(StochOK(new), "well-formed")
                  \cup F(MatClose(old.k,new.mat,want.mat), "transitions")
                  \cup F(CloseRelSeq(new.init,want.init), "initial")
                  \cup F(OutClose(old,new,want), "emissions")
                  \cup F(ZerosKept(old,new), "zeros-kept")
                  \cup F(Frame(old,new), "frame")
                  \cup F(Close(ev.ll, TotalLogLik(qs)), "reported-loglikelihood")
                  \cup F(~Changed(ev,o,{ev.m}), "modified-other")

\* many iterations: the training likelihood never decreases (fixed rates only
\* in CTMCs may break monotonicity)
MonoFails(ev,o) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE F(\A i \in 1..(Len(ev.lls)-1) : IsFin(ev.lls[i]) /\ IsFin(ev.lls[i+1]) /\
            RLe(RSub(ev.lls[i], RMul(RFrac(1,1000000),RAdd(ROne,RAbs(ev.lls[i])))), ev.lls[i+1]), "likelihood-decreased")

\* two results of the same question must agree
AgreeFails(ev,o) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE F(\A i \in 1..Len(ev.res) : Close(ev.res[i], ev.res[1]), "disagree")

\* emission density of a GoHMM
GoBFails(ev,o) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE F(CloseT(ev.res, GoB(o[ev.m],ev.st+1,ev.vec), RFrac(1,10000000), RFrac(1,1000000)), "emission")

NumFails(ev,o) ==
  CASE ev.op \in {"reset","def"} -> {}
    [] ev.op = "loglik" -> LogLikFails(ev,o) \cup Pure(ev,o)
    [] ev.op = "bw"     -> BWFails(ev,o)
    [] ev.op = "mono"   -> MonoFails(ev,o)
    [] ev.op = "agree"  -> AgreeFails(ev,o)
    [] ev.op = "gob"    -> GoBFails(ev,o)

Next == Consume(NumFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
