------------------------------- MODULE Compose -------------------------------
(* Synchronous composition of CTMCs and PCTMCs (Prism's semantics).           *)
(* A component: n local states, lab, loc[s][t] local rates, ini[s] initial     *)
(* rates, sync = << [s,a,d,r] >> transitions on actions.  Rates are vectors of *)
(* numbers: the values of a rate expression at some valuations.                *)
(*   - local transitions interleave;                                          *)
(*   - an action is performed by all the components that know it together,     *)
(*     with the product of their rates;                                       *)
(*   - rates between the same two states add up; the initial distribution is   *)
(*     the product.                                                           *)
EXTENDS Expr, FiniteSets, SequencesExt
VZero(k) == [q \in 1..k |-> RZero]
VOne(k) == [q \in 1..k |-> ROne]
VAdd(x,y) == [q \in 1..Len(x) |-> RAdd(x[q],y[q])]
VMul(x,y) == [q \in 1..Len(x) |-> RMul(x[q],y[q])]
VIsZero(x) == \A q \in 1..Len(x) : x[q][1] = 0
VClose(x,y) == \A q \in 1..Len(x) : Close(x[q],y[q])
VSum(k,xs) == FoldLeft(VAdd, VZero(k), xs)
VProd(k,xs) == FoldLeft(VMul, VOne(k), xs)
Acts(c) == { c.sync[i].a : i \in 1..Len(c.sync) }
\* rate of component c moving s -> t by action a
ActRate(k,c,a,s,t) == VSum(k, [i \in 1..Len(c.sync) |->
   IF c.sync[i].a = a /\ c.sync[i].s = s /\ c.sync[i].d = t THEN c.sync[i].r ELSE VZero(k)])
\* the tuples of local states, in lexicographic order
RECURSIVE Tuples(_)
Tuples(cs) == IF cs = << >> THEN << << >> >>
  ELSE LET T == Tuples(Tail(cs)) IN
       FlattenSeq([s \in 1..Head(cs).n |-> [i \in 1..Len(T) |-> << s >> \o T[i]]])
\* components outside K stay where they are
StayOut(K,u,v) == \A i \in 1..Len(u) : i \in K \/ u[i] = v[i]
SetSum(k,S,f(_)) == FoldSet(LAMBDA x,acc : VAdd(f(x),acc), VZero(k), S)
TRate(k,cs,u,v) ==
  VAdd( SetSum(k, { i \in 1..Len(cs) : StayOut({i},u,v) }, LAMBDA i : cs[i].loc[u[i]][v[i]]),
        SetSum(k, UNION { Acts(cs[i]) : i \in 1..Len(cs) },
               LAMBDA a : LET K == { i \in 1..Len(cs) : a \in Acts(cs[i]) } IN
                          IF ~StayOut(K,u,v) THEN VZero(k)
                          ELSE VProd(k, [i \in 1..Len(cs) |-> IF i \in K THEN ActRate(k,cs[i],a,u[i],v[i]) ELSE VOne(k)])))
RECURSIVE Commas(_)
Commas(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Commas(Tail(q))
\* the product as a graph [lab, mat]: the tuples, then the initial state
Product(k,cs) ==
  LET T == Tuples(cs)  n == Len(T) IN
  [ lab |-> Append([x \in 1..n |-> Commas([i \in 1..Len(cs) |-> cs[i].lab[T[x][i]]])], "init"),
    mat |-> Append([x \in 1..n |-> Append([y \in 1..n |-> TRate(k,cs,T[x],T[y])], VZero(k))],
                   Append([y \in 1..n |-> VProd(k,[i \in 1..Len(cs) |-> cs[i].ini[T[y][i]]])], VZero(k))) ]
-----------------------------------------------------------------------------
\* graphs up to renaming of the states reachable from the initial ones
RECURSIVE GReach(_,_)
GReach(g,S) == LET S2 == S \cup { t \in 1..Len(g.lab) : \E s \in S : ~VIsZero(g.mat[s][t]) } IN IF S2 = S THEN S ELSE GReach(g,S2)
GInit(g) == { s \in 1..Len(g.lab) : g.lab[s] = "init" }
GFit(a,b,map,s,u) == /\ a.lab[s] = b.lab[u] /\ VClose(a.mat[s][s],b.mat[u][u])
                     /\ \A t \in DOMAIN map : VClose(a.mat[s][t],b.mat[u][map[t]]) /\ VClose(a.mat[t][s],b.mat[map[t]][u])
RECURSIVE GIsoFrom(_,_,_,_,_)
GIsoFrom(a,b,R,todo,map) ==
  \/ todo = << >>
  \/ \E u \in R : /\ \A t \in DOMAIN map : map[t] # u
                  /\ GFit(a,b,map,Head(todo),u)
                  /\ GIsoFrom(a,b,R,Tail(todo),(Head(todo) :> u) @@ map)
SameGraph(a,b) == LET Ra == GReach(a,GInit(a))  Rb == GReach(b,GInit(b)) IN
   /\ Cardinality(Ra) = Cardinality(Rb)
   /\ \A t \in { a.lab[s] : s \in Ra } : Cardinality({ s \in Ra : a.lab[s] = t }) = Cardinality({ s \in Rb : b.lab[s] = t })
   /\ GIsoFrom(a,b,Rb,SetToSeq(Ra),[x \in {} |-> 0])
-----------------------------------------------------------------------------
(* Composing one component after the other.  A partial composition is a        *)
(* component; the joint transitions stay actions until the last component has  *)
(* been added (Close).                                                        *)
Pair(k,c,d) ==
  LET id(x,y) == (x-1)*d.n + y
      n == c.n*d.n
      fst(z) == ((z-1) \div d.n) + 1
      snd(z) == ((z-1) % d.n) + 1
  IN [ n |-> n, lab |-> [z \in 1..n |-> c.lab[fst(z)] \o "," \o d.lab[snd(z)]],
       ini |-> [z \in 1..n |-> VMul(c.ini[fst(z)],d.ini[snd(z)])],
       loc |-> [z \in 1..n |-> [w \in 1..n |->
                 VAdd(IF snd(z) = snd(w) THEN c.loc[fst(z)][fst(w)] ELSE VZero(k),
                      IF fst(z) = fst(w) THEN d.loc[snd(z)][snd(w)] ELSE VZero(k))]],
       sync |->
         FlattenSeq([i \in 1..Len(c.sync) |->
            IF c.sync[i].a \in Acts(d)
            THEN LET M == SelectSeq(d.sync, LAMBDA t : t.a = c.sync[i].a) IN
                 [j \in 1..Len(M) |-> [s |-> id(c.sync[i].s,M[j].s), a |-> M[j].a, d |-> id(c.sync[i].d,M[j].d), r |-> VMul(c.sync[i].r,M[j].r)]]
            ELSE [y \in 1..d.n |-> [s |-> id(c.sync[i].s,y), a |-> c.sync[i].a, d |-> id(c.sync[i].d,y), r |-> c.sync[i].r]]])
         \o FlattenSeq([j \in 1..Len(d.sync) |->
            IF d.sync[j].a \in Acts(c) THEN << >>
            ELSE [x \in 1..c.n |-> [s |-> id(x,d.sync[j].s), a |-> d.sync[j].a, d |-> id(x,d.sync[j].d), r |-> d.sync[j].r]]]) ]
\* the actions become ordinary transitions
Finish(k,c) == [ lab |-> Append(c.lab,"init"),
   mat |-> Append([s \in 1..c.n |-> Append([t \in 1..c.n |-> FoldSet(LAMBDA a,acc : VAdd(ActRate(k,c,a,s,t),acc), c.loc[s][t], Acts(c))], VZero(k))],
                  Append(c.ini, VZero(k))) ]
=============================================================================
