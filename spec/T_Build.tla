------------------------------ MODULE T_Build ------------------------------
(* Trace specification of model construction and of the random generators.    *)
EXTENDS Build, Expr, T_Common, TraceBase
\* --- createX: ev.sp specification, ev.res the model built
InitMatch(m,sp,n) ==
  CASE m.k = "MC" -> m.mat[n+1] = Append(InitV(sp,n), RZero)
    [] m.k = "CTMC" -> m.mat[n+1] = Append(InitV(sp,n), RZero)
    [] m.k = "MDP" -> \A a \in 1..Len(m.acts) : m.mat[n+1][a] = Append(InitV(sp,n), RZero)
    [] OTHER -> m.init = InitV(sp,n)
BuiltOK(m,sp) ==
  LET n == NS(sp) IN
  CASE sp.k \in {"MC","CTMC"} ->
         F(Len(m.mat) = n+1 /\ \A s \in 1..Len(m.mat) : Len(m.mat[s]) = n+1, "size") \cup
         (IF Len(m.mat) # n+1 THEN {} ELSE
          F(\A s \in 1..n : \A d \in 1..n : m.mat[s][d] = TransP(sp,s,"",d), "transitions") \cup
          F(\A s \in 1..n : m.mat[s][n+1] = RZero, "transitions-to-init") \cup
          F(InitMatch(m,sp,n), "initial") \cup F(m.lab = Append(sp.labels,"init"), "labels") \cup
          F(m.init = [i \in 1..n+1 |-> Ind(i = n+1)], "start"))
    [] sp.k = "MDP" ->
         F(Elems(m.acts) = ActsOf(sp) /\ Len(m.acts) = Cardinality(ActsOf(sp)), "actions") \cup
         F(Len(m.mat) = n+1, "size") \cup
         (IF Len(m.mat) # n+1 THEN {} ELSE
          F(\A s \in 1..n : \A a \in 1..Len(m.acts) : \A d \in 1..n : m.mat[s][a][d] = TransP(sp,s,m.acts[a],d), "transitions") \cup
          F(\A s \in 1..n : \A a \in 1..Len(m.acts) : m.mat[s][a][n+1] = RZero, "transitions-to-init") \cup
          F(InitMatch(m,sp,n), "initial") \cup F(m.lab = Append(sp.labels,"init"), "labels") \cup
          F(m.init = [i \in 1..n+1 |-> Ind(i = n+1)], "start"))
    [] sp.k = "HMM" ->
         F(Len(m.mat) = n /\ \A s \in 1..n : \A d \in 1..n : m.mat[s][d] = TransP(sp,s,"",d), "transitions") \cup
         F(Elems(m.alpha) = { sp.emis[i].o : i \in 1..Len(sp.emis) } /\ Len(m.alpha) = Cardinality(Elems(m.alpha)), "alphabet") \cup
         F(\A s \in 1..n : \A o \in 1..Len(m.alpha) : m.out[s][o] = EmisP(sp,s,m.alpha[o]), "emissions") \cup F(InitMatch(m,sp,n), "initial")
    [] sp.k = "GOHMM" ->
         F(Len(m.mat) = n /\ \A s \in 1..n : \A d \in 1..n : m.mat[s][d] = TransP(sp,s,"",d), "transitions") \cup
         F(m.out = sp.out, "emissions") \cup F(InitMatch(m,sp,n), "initial")
EmisRowBad(sp) == sp.k = "HMM" /\ \E s \in 1..NS(sp) :
   LET obs == SetToSeq({ sp.emis[i].o : i \in 1..Len(sp.emis) })
       r == [i \in 1..Len(obs) |-> EmisP(sp,s,obs[i])] IN SumBad(r) /\ RSum(r)[1] # 0
CreateFails(ev,o) ==
  LET sp == ev.sp
      reject == Reserved(sp) \/ TooFew(sp) \/ RowsBad(sp) \/ EmisRowBad(sp) \/ InitBad(sp)
  IN (IF Reserved(sp) THEN F(ev.exc = "SyntaxError", "accepts-reserved-label")
      ELSE IF reject THEN F(ev.exc # "", "accepts-bad-specification")
      ELSE IF TooMany(sp) THEN {}            \* unspecified (rejected or not)
      ELSE IF ev.exc # "" THEN {"raised"}
      ELSE BuiltOK(ev.res,sp)
           \cup F(sp.k # "CTMC" \/ ev.res.sync = sp.sync, "synchronous")
           \cup F(sp.name = ev.res.name, "name"))
     \cup F(ev.unchanged, "arguments-modified")

\* --- createPCTMC: ev.trans = << [s,d,e] >> (e: expression record), ev.init, ev.params, ev.inst
ZeroExpr(e) == Syms(e) = {} /\ Eval(e,<< >>)[1] = 0
NumIs(e,v) == Syms(e) = {} /\ Close(Eval(e,<< >>),v)
CreatePFails(ev,o) ==
  (IF ev.bad = "reserved" THEN F(ev.exc = "SyntaxError", "accepts-reserved-label")
   ELSE IF ev.bad = "few" THEN F(ev.exc # "", "accepts-bad-specification")
   ELSE IF ev.exc # "" THEN {"raised"}
   ELSE LET m == ev.res  n == ev.n IN
        F(Len(m.expr) = n+1 /\ m.lab = Append(ev.labels,"init"), "labels")
        \cup (IF Len(m.expr) # n+1 THEN {} ELSE
        F(\A s \in 1..n : \A d \in 1..n :
            LET h == { i \in 1..Len(ev.trans) : ev.trans[i].s+1 = s /\ ev.trans[i].d+1 = d } IN
            IF h = {} THEN ZeroExpr(m.expr[s][d]) ELSE SameExpr(m.expr[s][d], ev.trans[CHOOSE i \in h : TRUE].e), "transitions")
        \cup F(\A s \in 1..n+1 : ZeroExpr(m.expr[s][n+1]), "transitions-to-init")
        \cup F(\A d \in 1..n : NumIs(m.expr[n+1][d], IF ev.init.i >= 0 THEN Ind(d = ev.init.i+1) ELSE ev.init.v[d]), "initial")
        \cup F(m.init = [i \in 1..n+1 |-> Ind(i = n+1)], "start")
        \cup F(m.pnames = ev.params /\ m.pvals = ev.inst, "parameters")
        \cup F(Len(m.pidx) = Len(m.pnames) /\ \A p \in 1..Len(m.pnames) :
                 Elems(m.pidx[p]) = { << x,y >> \in (0..n) \X (0..n) : m.pnames[p] \in Syms(m.expr[x+1][y+1]) }, "parameter-indexes")))
  \cup F(ev.unchanged, "arguments-modified")

\* --- random generators: ev.g kind, parameters, ev.res and ev.res2 (same seed, another process: ev.res3)
Pos(v) == \A i \in 1..Len(v) : v[i][1] >= 0
Dist(v) == Pos(v) /\ Close(RSum(v),ROne)
LabelsOK(m,ev) ==       \* the requested labels in order, then only requested labels, then init
  /\ Len(m.lab) = ev.n+1 /\ m.lab[ev.n+1] = "init"
  /\ \A i \in 1..ev.n : IF i <= Len(ev.labels) THEN m.lab[i] = ev.labels[i] ELSE m.lab[i] \in Elems(ev.labels)
FirstOrRandom(v,ev) == IF ev.rinit THEN Dist(v) ELSE \A i \in 1..Len(v) : v[i] = Ind(i = 1)
RandOK(m,ev) ==
  LET n == ev.n IN
  CASE ev.g = "MC" -> F(Len(m.mat) = n+1 /\ LabelsOK(m,ev), "labels") \cup
          F(\A s \in 1..n+1 : Dist(m.mat[s]) /\ m.mat[s][n+1] = RZero, "rows") \cup F(FirstOrRandom(m.mat[n+1],ev), "initial")
    [] ev.g = "MDP" -> F(Len(m.mat) = n+1 /\ LabelsOK(m,ev) /\ m.acts = ev.acts, "labels") \cup
          F(\A s \in 1..n+1 : \A a \in 1..Len(m.acts) : Dist(m.mat[s][a]) /\ m.mat[s][a][n+1] = RZero, "rows") \cup
          F(\A a \in 1..Len(m.acts) : FirstOrRandom(m.mat[n+1][a],ev), "initial") \cup
          F(ev.det => \A s \in 1..n : \A a \in 1..Len(m.acts) : \A x \in 1..n : \A y \in 1..n :
               (x # y /\ m.mat[s][a][x][1] # 0 /\ m.mat[s][a][y][1] # 0) => m.lab[x] # m.lab[y], "deterministic")
    [] ev.g = "CTMC" -> F(Len(m.mat) = n+1 /\ LabelsOK(m,ev), "labels") \cup
          F(\A s \in 1..n+1 : Pos(m.mat[s]) /\ m.mat[s][n+1] = RZero, "rows") \cup
          F(\A s \in 1..n : LET e == RSum(m.mat[s]) IN e[1] > 0 /\
               \E w \in ev.lo..ev.hi : Close(RMul(e,ROf(w)), ROne), "waiting-times") \cup
          F(~ev.selfloop => \A s \in 1..n : m.mat[s][s] = RZero, "self-loops") \cup F(FirstOrRandom(m.mat[n+1],ev) /\ Dist(m.mat[n+1]), "initial")
    [] ev.g = "HMM" -> F(Len(m.mat) = n /\ m.alpha = ev.labels, "labels") \cup
          F(\A s \in 1..n : Len(m.mat[s]) = n /\ Dist(m.mat[s]) /\ Len(m.out[s]) = Len(m.alpha) /\ Dist(m.out[s]), "rows") \cup F(FirstOrRandom(m.init,ev), "initial")
    [] ev.g = "GOHMM" -> F(Len(m.mat) = n /\ \A s \in 1..n : Dist(m.mat[s]), "rows") \cup F(FirstOrRandom(m.init,ev), "initial") \cup
          F(\A s \in 1..n : Len(m.out[s]) = ev.lo /\ \A i \in 1..ev.lo :
               RLe(RSub(ev.b[1],RFrac(1,1000)),m.out[s][i][1]) /\ RLe(m.out[s][i][1],RAdd(ev.b[2],RFrac(1,1000))) /\
               RLe(RSub(ev.b[3],RFrac(1,1000)),m.out[s][i][2]) /\ RLe(m.out[s][i][2],RAdd(ev.b[4],RFrac(1,1000))), "bounds")
RandomFails(ev,o) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE RandOK(ev.res,ev) \cup F(~ev.seeded \/ ev.res2 = ev.res, "seed")
         \cup F(ev.unchanged, "arguments-modified")
\* the same seed in different processes
SeedFails(ev,o) == IF ev.exc # "" THEN {"raised"} ELSE F(\A i \in 1..Len(ev.res) : ev.res[i] = ev.res[1], "seed-across-processes")
\* randomProbabilities, checkProbabilities, normalize, Hoeffding
ToolFails(ev,o) ==
  IF ev.exc # "" THEN F(ev.tool = "randomProbabilities" /\ ev.n <= 0, "raised")
  ELSE CASE ev.tool = "randomProbabilities" -> F(ev.n > 0 /\ Len(ev.res) = ev.n /\ Dist(ev.res) /\ \A i \in 1..ev.n : ev.res[i][1] > 0, "value")
         [] ev.tool = "check" -> LET s == RSum(ev.v) IN
               F((SumOK(ev.v) => ev.res) /\ ((SumBad(ev.v) /\ RLt(RFrac(6,10000),RAbs(s))) => ~ev.res), "value")
         [] ev.tool = "normalize" -> F(LET s == RSum(ev.v) IN CloseSeq(ev.res, [i \in 1..Len(ev.v) |-> RDiv(ev.v[i],s)]), "value")
BFails(ev,o) ==
  CASE ev.op = "create" -> CreateFails(ev,o)
    [] ev.op = "create_p" -> CreatePFails(ev,o)
    [] ev.op = "random" -> RandomFails(ev,o)
    [] ev.op = "seed" -> SeedFails(ev,o)
    [] ev.op = "tool" -> ToolFails(ev,o)
Next == Consume(BFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
