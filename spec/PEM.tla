--------------------------------- MODULE PEM ---------------------------------
(* Learning the parameters of a PCTMC: one iteration.                         *)
(* A PCTMC record: lab, init, expr[s][t] rate expressions, pvals, ..           *)
(* The rates must be monomials c * p^a * q^b * ..                             *)
(* With X(s,t) the expected number of jumps and D(s) the expected time spent,  *)
(* the new value y of a free parameter p of value x is the solution of        *)
(*    SUM a X(s,t)  =  SUM a D(s) rate(s,t) (y/x)^C                           *)
(* over the transitions that use p, a the degree of p and C the total degree   *)
(* of the free parameters in them; constants are estimated like CTMC rates.    *)
EXTENDS EM, Expr, FiniteSets
RECURSIVE Degree(_,_), Monomial(_)
Degree(e,p) == CASE e.t = "sym" -> IF e.n = p THEN 1 ELSE 0
                 [] e.t = "mul" -> FoldLeft(LAMBDA x,y : x + Degree(y,p), 0, e.a)
                 [] e.t = "pow" -> RInt(e.v) * Degree(e.a[1],p)
                 [] OTHER -> 0
Monomial(e) == \/ e.t \in {"num","sym"}
               \/ (Syms(e) = {} /\ e.t # "other")
               \/ (e.t = "mul" /\ \A i \in 1..Len(e.a) : Monomial(e.a[i]))
               \/ (e.t = "pow" /\ Monomial(e.a[1]) /\ RInt(e.v) >= 0)
IsConst(e) == Syms(e) = {}
Size(m) == Len(m.lab)
Env(m) == EnvOf(m.pvals)
\* the CTMC an instantiated PCTMC denotes
Denotes(m) == [k |-> "CTMC", init |-> m.init, lab |-> m.lab,
               mat |-> TLCEval([s \in 1..Size(m) |-> [t \in 1..Size(m) |-> Eval(m.expr[s][t],Env(m))]])]
\* expected dwell times and numbers of jumps of the CTMC c
Dwells(c,qs,timed) == LET E == ExitRates(c) IN TLCEval([s \in 1..N(c) |->
   IF timed THEN Dwell(qs,s) ELSE IF E[s][1] = 0 THEN RZero ELSE RDiv(Visits(qs,s),E[s])])
JumpsOf(c,qs,timed) == LET J == JumpMat(c) IN TLCEval([s \in 1..N(c) |-> [t \in 1..N(c) |->
   IF timed THEN Jumps(qs,s,t) ELSE JumpsExt(qs,J[s],s,t)]])
Uses(m,p) == { z \in (1..Size(m)) \X (1..Size(m)) : p \in Syms(m.expr[z[1]][z[2]]) }
SumOver(S,f(_)) == FoldSet(LAMBDA z,acc : RAdd(f(z),acc), RZero, S)
FreeDeg(m,free,z) == LET e == m.expr[z[1]][z[2]] IN
   FoldSet(LAMBDA p,acc : acc + Degree(e,p), 0, free \cap Syms(e))
\* y is the new value of the free parameter p (old value x)
Lhs(m,X,p) == SumOver(Uses(m,p), LAMBDA z : RMul(ROf(Degree(m.expr[z[1]][z[2]],p)), X[z[1]][z[2]]))
Weight(m,c,D,p,z) == RMul(ROf(Degree(m.expr[z[1]][z[2]],p)), RMul(D[z[1]],c.mat[z[1]][z[2]]))
Rhs(m,c,D,free,p,q) == SumOver(Uses(m,p), LAMBDA z : RMul(Weight(m,c,D,p,z), RPow(q,FreeDeg(m,free,z))))
NewParam(m,c,X,D,free,p,x,y) ==
  IF \A z \in Uses(m,p) : Weight(m,c,D,p,z)[1] = 0 THEN Close(y,x)
  ELSE IsFin(y) /\ y[1] >= 0 /\ Close(Rhs(m,c,D,free,p,RDiv(y,x)), Lhs(m,X,p))
\* the clauses violated by the step m -> n
PStep(m,n,qs,timed,fixed,upd) ==
  LET c == Denotes(m)
      X == JumpsOf(c,qs,timed)
      D == Dwells(c,qs,timed)
      names == { m.pnames[i] : i \in 1..Len(m.pnames) }
      free == names \ fixed
  IN { x \in {"fixed-parameters"} : \E p \in fixed \cap names : Env(n)[p] # Env(m)[p] } \cup
     { x \in {"parameters"} : \E p \in free : ~NewParam(m,c,X,D,free,p,Env(m)[p],Env(n)[p]) } \cup
     { x \in {"constants"} : \E s,t \in 1..Size(m) : IsConst(m.expr[s][t]) /\
          ( \/ ~IsConst(n.expr[s][t])
            \/ LET r == c.mat[s][t]  v == Eval(n.expr[s][t],Env(n)) IN
               IF ~upd \/ D[s][1] = 0 \/ r[1] = 0 THEN ~Close(v,r) ELSE ~Close(v,RDiv(X[s][t],D[s])) ) } \cup
     { x \in {"expressions"} : \E s,t \in 1..Size(m) : ~IsConst(m.expr[s][t]) /\ ~SameExpr(m.expr[s][t],n.expr[s][t]) }
\* what never changes
PFrame(m,n) == n.k = m.k /\ n.lab = m.lab /\ n.init = m.init /\ n.pnames = m.pnames /\ n.pidx = m.pidx /\ DOMAIN Env(n) = DOMAIN Env(m)
InScopeP(m) == DOMAIN Env(m) = { m.pnames[i] : i \in 1..Len(m.pnames) } /\ \A s,t \in 1..Size(m) : Monomial(m.expr[s][t])
=============================================================================
