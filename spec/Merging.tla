------------------------------ MODULE Merging ------------------------------
(* State merging over frequency prefix trees: Alergia (kind "MC") and        *)
(* IOAlergia (kind "IO").  A sample is a sequence of [tr, n]; a trace is a    *)
(* sequence of symbols 1..K.                                                 *)
(*  MC : a symbol is (the rank of) a label.                                  *)
(*  IO : a symbol is an (action,label) pair, (a-1)*L + l; the first label of *)
(*       every trace is the same and is not part of the symbol sequence.     *)
(* Nodes of the tree are its prefixes, numbered 1..n in lexicographic order; *)
(* node 1 is the root.  State of the algorithm:                              *)
(*   lab[i]  label of node i (0: the root)                                   *)
(*   kid[i][s]  target node (0: none),   cnt[i][s]  frequency                *)
(*   stop[i] number of traces ending here      par[i] parent                 *)
(*   red     nodes kept, in the order they were kept                         *)
(*   amb     a compatibility test was too close to decide in floating point  *)
EXTENDS Real
AllPre(ms) == UNION { { SubSeq(ms[i].tr,1,k) : k \in 0..Len(ms[i].tr) } : i \in 1..Len(ms) }
LexLt(a,b) == \/ Len(a) < Len(b) /\ SubSeq(b,1,Len(a)) = a
              \/ \E k \in 1..Len(a) : k <= Len(b) /\ SubSeq(a,1,k-1) = SubSeq(b,1,k-1) /\ a[k] < b[k]
IsPre(p,t) == Len(p) <= Len(t) /\ SubSeq(t,1,Len(p)) = p
CountPre(ms,p) == FoldLeft(LAMBDA a,e : IF IsPre(p,e.tr) THEN a + e.n ELSE a, 0, ms)
CountEnd(ms,p) == FoldLeft(LAMBDA a,e : IF p = e.tr THEN a + e.n ELSE a, 0, ms)
\* K symbols, L labels; LabOf(s) the label of symbol s
LabelOf(kind,L,s) == IF kind = "MC" THEN s ELSE ((s-1) % L) + 1
ActOf(kind,L,s) == IF kind = "MC" THEN 1 ELSE ((s-1) \div L) + 1
Tree(kind,K,L,ms) ==
  LET ps == TLCEval(SetToSortSeq(AllPre(ms), LexLt))
      n == Len(ps)
      nr == TLCEval([p \in { ps[i] : i \in 1..n } |-> CHOOSE i \in 1..n : ps[i] = p])
      kid == TLCEval([i \in 1..n |-> [s \in 1..K |-> LET p == Append(ps[i],s) IN IF p \in DOMAIN nr THEN nr[p] ELSE 0]])
  IN TLCEval([kind |-> kind, K |-> K, L |-> L, n |-> n, kid |-> kid,
      cnt |-> [i \in 1..n |-> [s \in 1..K |-> IF kid[i][s] = 0 THEN 0 ELSE CountPre(ms,Append(ps[i],s))]],
      stop |-> [i \in 1..n |-> CountEnd(ms,ps[i])],
      lab |-> [i \in 1..n |-> IF ps[i] = << >> THEN 0 ELSE LabelOf(kind,L,ps[i][Len(ps[i])])],
      par |-> [i \in 1..n |-> IF ps[i] = << >> THEN 0 ELSE nr[SubSeq(ps[i],1,Len(ps[i])-1)]],
      red |-> << 1 >>, amb |-> FALSE])
-----------------------------------------------------------------------------
RECURSIVE SumUp(_,_)
SumUp(f,i) == IF i = 0 THEN 0 ELSE f[i] + SumUp(f,i-1)
Out(T,i) == SumUp(T.cnt[i],T.K)
OutAct(T,i,a) == FoldLeft(LAMBDA x,s : IF ActOf(T.kind,T.L,s) = a THEN x + T.cnt[i][s] ELSE x, 0, [s \in 1..T.K |-> s])
\* Hoeffding test: 1 within the bound, 0 not, 2 too close to call; c = sqrt(ln(2/alpha)/2)
Bound(n1,n2,c) == RMul(RAdd(Sqrt(RFrac(1,n1)),Sqrt(RFrac(1,n2))), c)
EPS == RFrac(1,1000000000)
Hoeffding(f1,n1,f2,n2,c) ==
  IF n1 = 0 \/ n2 = 0 THEN 1 ELSE
  LET d == RAbs(RSub(RFrac(f1,n1),RFrac(f2,n2)))
      g == RSub(d,Bound(n1,n2,c))
  IN IF RLt(RAbs(g),EPS) THEN 2 ELSE IF g[1] < 0 THEN 1 ELSE 0
HConst(alpha) == Sqrt(RMul(RHalf,Ln(RDiv(ROf(2),alpha))))
\* conjunction of three-valued tests, evaluated in order
And3(x,y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = 2 \/ y = 2 THEN 2 ELSE 1
RECURSIVE Compat(_,_,_,_)
Compat(T,s1,s2,c) ==
  IF T.lab[s1] # T.lab[s2] THEN 0
  ELSE IF T.kind = "MC" /\ (Out(T,s1) = 0 \/ Out(T,s2) = 0) THEN 1
  ELSE LET n1(s) == IF T.kind = "MC" THEN Out(T,s1) ELSE OutAct(T,s1,ActOf(T.kind,T.L,s))
           n2(s) == IF T.kind = "MC" THEN Out(T,s2) ELSE OutAct(T,s2,ActOf(T.kind,T.L,s))
           tested(s) == IF T.kind = "MC" THEN T.kid[s1][s] # 0 \/ T.kid[s2][s] # 0
                                         ELSE T.kid[s1][s] # 0 /\ T.kid[s2][s] # 0
           here == FoldLeft(LAMBDA a,s : IF a # 0 /\ tested(s) THEN And3(a,Hoeffding(T.cnt[s1][s],n1(s),T.cnt[s2][s],n2(s),c)) ELSE a,
                            1, [s \in 1..T.K |-> s])
       IN FoldLeft(LAMBDA a,s : IF a # 0 /\ T.kid[s1][s] # 0 /\ T.kid[s2][s] # 0
                                THEN And3(a,Compat(T,T.kid[s1][s],T.kid[s2][s],c)) ELSE a,
                   here, [s \in 1..T.K |-> s])
\* merge the (tree) node s2 into s1: determinising fold, adding frequencies
RECURSIVE Fold(_,_,_)
Fold(T0,s1,s2) ==
  FoldLeft(LAMBDA T,s :
     IF T0.kid[s2][s] = 0 THEN T
     ELSE LET k1 == T.kid[s1][s]  k2 == T0.kid[s2][s]
              T1 == [T EXCEPT !.cnt[s1][s] = @ + T0.cnt[s2][s]]
          IN TLCEval(IF k1 = 0 THEN [T1 EXCEPT !.kid[s1][s] = k2, !.par[k2] = s1]
                     ELSE Fold(T1,k1,k2)),
     [T0 EXCEPT !.stop[s1] = @ + T0.stop[s2]], [s \in 1..T0.K |-> s])
SymTo(T,p,k) == CHOOSE s \in 1..T.K : T.kid[p][s] = k
Merge(T,s1,s2) == Fold([T EXCEPT !.kid[T.par[s2]][SymTo(T,T.par[s2],s2)] = s1], s1, s2)
\* blue nodes: successors of red nodes that are not red, in the order they are examined
RedSet(T) == { T.red[i] : i \in 1..Len(T.red) }
Blue(T) ==
  IF T.kind = "MC"
  THEN FoldLeft(LAMBDA acc,r : FoldLeft(LAMBDA a,s : LET k == T.kid[r][s] IN
            IF k # 0 /\ k \notin RedSet(T) /\ \A i \in 1..Len(a) : a[i] # k THEN Append(a,k) ELSE a,
            acc, [s \in 1..T.K |-> s]), << >>, T.red)
  ELSE SetToSortSeq({ T.kid[r][s] : r \in RedSet(T), s \in 1..T.K } \ ({0} \cup RedSet(T)), LAMBDA a,b : a < b)
Done(T) == T.amb \/ Blue(T) = << >>
\* the first red node compatible with b, or 0; 2-valued tests only
FirstRed(T,b,c) == FoldLeft(LAMBDA a,r : IF a.at # 0 \/ a.amb THEN a
      ELSE LET x == Compat(T,r,b,c) IN CASE x = 1 -> [at |-> r, amb |-> FALSE] [] x = 2 -> [at |-> 0, amb |-> TRUE] [] OTHER -> a,
      [at |-> 0, amb |-> FALSE], T.red)
Step(T,c) == LET b == Head(Blue(T))  f == FirstRed(T,b,c) IN
  IF f.amb THEN [T EXCEPT !.amb = TRUE]
  ELSE IF f.at # 0 THEN Merge(T,f.at,b) ELSE [T EXCEPT !.red = Append(@,b)]
RECURSIVE Run(_,_)
Run(T,c) == IF Done(T) THEN T ELSE Run(TLCEval(Step(T,c)),c)
-----------------------------------------------------------------------------
\* nodes reachable from node i
RECURSIVE ReachN(_,_)
ReachN(T,S) == LET S2 == (S \cup { T.kid[i][s] : i \in S, s \in 1..T.K }) \ {0} IN IF S2 = S THEN S ELSE ReachN(T,S2)
RECURSIVE Walk(_,_,_,_)
Walk(T,i,tr,k) == IF i = 0 \/ k > Len(tr) THEN i ELSE Walk(T,T.kid[i][tr[k]],tr,k+1)
=============================================================================
