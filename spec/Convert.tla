------------------------------ MODULE Convert ------------------------------
(* Storm models, Prism round trips and what they must preserve.              *)
(* A Storm model: ty in dtmc / ctmc / mdp / pctmc, lab[s] its sorted labels,  *)
(* init its initial states, ch[s] the choices of s: [n |-> labels of the      *)
(* choice, row |-> << [d |-> target, v |-> value] >>], exit the exit rates     *)
(* (ctmc).  Values are rationals (pctmc: expressions).                        *)
EXTENDS T_Common, Expr, FiniteSets
StormTy(m) == CASE m.k = "MC" -> "dtmc" [] m.k = "CTMC" -> "ctmc" [] m.k = "MDP" -> "mdp" [] m.k = "PCTMC" -> "pctmc"
ElemsOf(q) == { q[i] : i \in 1..Len(q) }
\* the row (over states 1..n) of a choice
RowVec(row,n) == [t \in 1..n |-> LET S == { i \in 1..Len(row) : row[i].d + 1 = t } IN IF S = {} THEN RZero ELSE row[CHOOSE i \in S : TRUE].v]
RowFine(row,n) == /\ \A i \in 1..Len(row) : row[i].d >= 0 /\ row[i].d < n /\ IsFin(row[i].v)
                  /\ Cardinality({ row[i].d : i \in 1..Len(row) }) = Len(row)
Empty(row) == \A i \in 1..Len(row) : row[i].v[1] = 0
EnabledActs(m,s) == { a \in 1..Len(m.acts) : \E t \in 1..N(m) : m.mat[s][a][t][1] # 0 }
InitStates(m) == { s \in 1..N(m) : m.init[s][1] # 0 }
\* h is the Storm model of the jajapy model m: the failed clauses
ToStorm(m,h) ==
  LET n == N(m) IN
  IF h.ty # StormTy(m) \/ Len(h.lab) # n \/ Len(h.ch) # n THEN {"storm-kind-or-size"} ELSE
  IF \E s \in 1..n : \E c \in 1..Len(h.ch[s]) : ~RowFine(h.ch[s][c].row,n) THEN {"storm-values"} ELSE
  { x \in {"storm-labels"} : \E s \in 1..n : h.lab[s] # << m.lab[s] >> } \cup
  { x \in {"storm-initial"} : { h.init[i]+1 : i \in 1..Len(h.init) } # InitStates(m) } \cup
  (IF m.k = "MDP"
   THEN { x \in {"storm-transitions"} : \E s \in 1..n :
            LET full == { c \in 1..Len(h.ch[s]) : ~Empty(h.ch[s][c].row) }
            IN \/ Cardinality(full) # Cardinality(EnabledActs(m,s))
               \/ full # 1..Len(h.ch[s]) /\ EnabledActs(m,s) # {}          \* an empty distribution offered as an action
               \/ \E c \in full : Len(h.ch[s][c].n) # 1
               \/ \E a \in EnabledActs(m,s) : ~\E c \in full : h.ch[s][c].n = << m.acts[a] >> /\ CloseSeq(RowVec(h.ch[s][c].row,n), m.mat[s][a]) }
   ELSE { x \in {"storm-transitions"} : \E s \in 1..n :
            ~ (/\ Len(h.ch[s]) <= 1
               /\ CloseSeq(IF Len(h.ch[s]) = 0 THEN [t \in 1..n |-> RZero] ELSE RowVec(h.ch[s][1].row,n), m.mat[s])) } \cup
        (IF m.k = "CTMC" THEN { x \in {"storm-exit-rates"} : ~CloseSeq(h.exit,ExitRates(m)) } ELSE {}))
-----------------------------------------------------------------------------
\* the jajapy model of a Storm model: a state labelled 'init' and something else is split
Real1(h,s) == SelectSeq(h.lab[s], LAMBDA x : x # "deadlock")
Split(h) == { s \in 1..Len(h.lab) : Len(Real1(h,s)) > 1 /\ "init" \in ElemsOf(Real1(h,s)) }
RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "_" \o Join(Tail(q))
LabelIn(h,s) == IF Real1(h,s) = << >> THEN "empty"
                ELSE IF s \in Split(h) THEN Join(SelectSeq(Real1(h,s), LAMBDA x : x # "init")) ELSE Join(Real1(h,s))
\* (drop: the self-loops that Storm gives to deadlock states are not actions)
Named(h,drop) == \A s \in 1..Len(h.ch) :
   \/ drop /\ "deadlock" \in ElemsOf(h.lab[s])
   \/ /\ \A c \in 1..Len(h.ch[s]) : Len(h.ch[s][c].n) = 1
      /\ \A c,d \in 1..Len(h.ch[s]) : c # d => h.ch[s][c].n # h.ch[s][d].n
\* values of m between old states, from a state and (for MDPs) an action name
Val(m,s,a,t) == CASE m.k = "MDP" -> LET i == IdxOf(m.acts,a) IN IF i = 0 THEN RZero ELSE m.mat[s][i][t]
                  [] m.k = "PCTMC" -> m.expr[s][t]  [] OTHER -> m.mat[s][t]
SameVal(m,u,v) == IF m.k = "PCTMC" THEN SameExpr(u,v) ELSE Close(u,v)
ZeroVal(m,u) == IF m.k = "PCTMC" THEN SameExpr(u,[t |-> "num", n |-> "", v |-> RZero, a |-> << >>]) ELSE u[1] = 0
OneVal(m,u) == IF m.k = "PCTMC" THEN SameExpr(u,[t |-> "num", n |-> "", v |-> ROne, a |-> << >>]) ELSE Close(u,ROne)
Size(m) == Len(m.lab)
\* names: names[k] renames the k-th action when the choices carry no names (<<>>: a0, a1, ..)
PosName(names,k) == IF k <= Len(names) THEN names[k] ELSE << "a0","a1","a2","a3","a4","a5" >>[k]
ActName(h,names,drop,s,c) == IF Named(h,drop) THEN h.ch[s][c].n[1] ELSE PosName(names,c)
\* drop: deadlock states lost the self-loop Storm gave them
FromStorm(h,names,drop,m) ==
  LET n == Len(h.lab)  extra == Cardinality(Split(h)) IN
  IF StormTy(m) # h.ty \/ Size(m) # n + extra THEN {"jajapy-kind-or-size"} ELSE
  { x \in {"jajapy-labels"} : (\E s \in 1..n : m.lab[s] # LabelIn(h,s)) \/ (\E s \in (n+1)..Size(m) : m.lab[s] # "init") } \cup
  { x \in {"jajapy-initial"} : LET I == IF extra > 0 THEN (n+1)..Size(m) ELSE { h.init[i]+1 : i \in 1..Len(h.init) }
                               IN \E s \in 1..Size(m) : ~Close(m.init[s], IF s \in I THEN RFrac(1,Cardinality(I)) ELSE RZero) } \cup
  { x \in {"jajapy-actions"} : m.k = "MDP" /\ \E s \in 1..n : { m.acts[a] : a \in EnabledActs(m,s) }
          # { ActName(h,names,drop,s,c) : c \in { c \in 1..Len(h.ch[s]) : ~(drop /\ "deadlock" \in ElemsOf(h.lab[s])) /\ ~Empty(h.ch[s][c].row) } } } \cup
  { x \in {"jajapy-transitions"} :
     \/ \E s \in 1..n : \E c \in 1..Len(h.ch[s]) :
          LET gone == drop /\ "deadlock" \in ElemsOf(h.lab[s])
              row == h.ch[s][c].row
              act == IF m.k = "MDP" /\ ~gone THEN ActName(h,names,drop,s,c) ELSE ""
          IN \E t \in 1..Size(m) :
               LET E == { i \in 1..Len(row) : row[i].d + 1 = t }
               IN IF gone \/ E = {} THEN ~ZeroVal(m,Val(m,s,act,t)) ELSE ~SameVal(m,row[CHOOSE i \in E : TRUE].v,Val(m,s,act,t))
     \/ \E s \in 1..n : Len(h.ch[s]) = 0 /\ m.k # "MDP" /\ \E t \in 1..Size(m) : ~ZeroVal(m,Val(m,s,"",t))
     \/ \E s \in (n+1)..Size(m) : \E t \in 1..Size(m) : \E a \in (IF m.k = "MDP" THEN ElemsOf(m.acts) ELSE {""}) :
          IF t \in Split(h) THEN ~OneVal(m,Val(m,s,a,t)) ELSE ~ZeroVal(m,Val(m,s,a,t)) }
-----------------------------------------------------------------------------
\* isomorphism of the reachable part of a with the whole of b
Edge(m,s,t) == CASE m.k = "MDP" -> \E a \in 1..Len(m.acts) : m.mat[s][a][t][1] # 0
                 [] m.k = "PCTMC" -> ~ZeroVal(m,m.expr[s][t])  [] OTHER -> m.mat[s][t][1] # 0
RECURSIVE ReachS(_,_)
ReachS(m,S) == LET S2 == S \cup { t \in 1..Size(m) : \E s \in S : Edge(m,s,t) } IN IF S2 = S THEN S ELSE ReachS(m,S2)
Agree(a,b,s,t,u,v) == \* the transitions s->t in a and u->v in b
  IF a.k = "MDP" THEN \A x \in ElemsOf(a.acts) \cup ElemsOf(b.acts) : Close(Val(a,s,x,t),Val(b,u,x,v))
  ELSE SameVal(a,Val(a,s,"",t),Val(b,u,"",v))
Fit(a,b,map,s,u) == /\ a.lab[s] = b.lab[u] /\ Close(a.init[s],b.init[u]) /\ Agree(a,b,s,s,u,u)
                    /\ \A t \in DOMAIN map : Agree(a,b,s,t,u,map[t]) /\ Agree(a,b,t,s,map[t],u)
RECURSIVE IsoFrom(_,_,_,_)
IsoFrom(a,b,todo,map) ==
  todo = << >> \/ \E u \in 1..Size(b) : /\ \A t \in DOMAIN map : map[t] # u
                                        /\ Fit(a,b,map,Head(todo),u)
                                        /\ IsoFrom(a,b,Tail(todo),(Head(todo) :> u) @@ map)
NoMap == [x \in {} |-> 0]
Iso(a,b) == LET R == ReachS(a,InitStates(a)) IN a.k = b.k /\ Cardinality(R) = Size(b) /\ IsoFrom(a,b,SetToSeq(R),NoMap)
=============================================================================
