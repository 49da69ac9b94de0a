------------------------------- MODULE Build -------------------------------
(* The model a specification (transition list, labelling, initial state)      *)
(* denotes, and which specifications are rejected.                            *)
(* spec record: k, trans = << [s,a,d,p] >>, labels, init = [i |-> state or -1,*)
(* v |-> vector], emis = << [s,o,p] >> (HMM), out (GoHMM), sync = << [s,a,d,r] >>*)
EXTENDS Models, FiniteSets

Elems(s) == { s[i] : i \in 1..Len(s) }
States(sp) == UNION ({ {sp.trans[i].s, sp.trans[i].d} : i \in 1..Len(sp.trans) } \cup
                     { {sp.sync[i].s, sp.sync[i].d} : i \in 1..Len(sp.sync) })
NS(sp) == Cardinality(States(sp))
\* state ids are ranked: the r-th smallest id is state r
Rank(sp,x) == Cardinality({ y \in States(sp) : y <= x })
\* the last listed entry wins
LastOf(f(_), n, dflt, val(_)) ==
  LET hits == { i \in 1..n : f(i) } IN IF hits = {} THEN dflt ELSE val(CHOOSE i \in hits : \A j \in hits : j <= i)
ActsOf(sp) == { sp.trans[i].a : i \in 1..Len(sp.trans) }
TransP(sp,s,a,d) == LastOf(LAMBDA i : Rank(sp,sp.trans[i].s) = s /\ Rank(sp,sp.trans[i].d) = d /\ sp.trans[i].a = a,
                           Len(sp.trans), RZero, LAMBDA i : sp.trans[i].p)
EmisP(sp,s,o) == LastOf(LAMBDA i : Rank(sp,sp.emis[i].s) = s /\ sp.emis[i].o = o, Len(sp.emis), RZero, LAMBDA i : sp.emis[i].p)
InitV(sp,n) == IF sp.init.i >= 0 THEN [j \in 1..n |-> Ind(j = sp.init.i+1)] ELSE sp.init.v
SumOK(v) == LET s == RSum(v) IN RLt(RAbs(RSub(s,ROne)), RFrac(4,10000))
SumBad(v) == LET s == RSum(v) IN RLt(RFrac(6,10000), RAbs(RSub(s,ROne)))

\* rejected: reserved label, too few labels, a row that is no distribution
Reserved(sp) == sp.k \in {"MC","MDP","CTMC","PCTMC"} /\ "init" \in Elems(sp.labels)
TooFew(sp) == sp.k \in {"MC","MDP","CTMC","PCTMC"} /\ Len(sp.labels) < NS(sp)
TooMany(sp) == sp.k \in {"MC","MDP","CTMC","PCTMC"} /\ Len(sp.labels) > NS(sp)
RowsBad(sp) ==
  LET n == NS(sp) IN
  CASE sp.k \in {"MC","HMM","GOHMM"} -> \E s \in 1..n : LET r == [d \in 1..n |-> TransP(sp,s,"",d)] IN SumBad(r) /\ RSum(r)[1] # 0
    [] sp.k = "MDP" -> \E s \in 1..n : \E a \in ActsOf(sp) : LET r == [d \in 1..n |-> TransP(sp,s,a,d)] IN SumBad(r) /\ RSum(r)[1] # 0
    [] OTHER -> FALSE
InitBad(sp) == sp.init.i < 0 /\ sp.k # "CTMC" /\ sp.k # "PCTMC" /\ SumBad(sp.init.v)
=============================================================================
