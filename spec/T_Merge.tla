------------------------------ MODULE T_Merge ------------------------------
(* Trace specification of Alergia and IOAlergia.  Every recorded fit carries  *)
(* the sample (symbol sequences, leading 'init' stripped), alpha, the label   *)
(* and action names by rank, and the returned model.                          *)
EXTENDS Merging, T_Common, TraceBase, FiniteSets
SymName(ev,T,s) == ev.labs[LabelOf(T.kind,T.L,s)]
RowOf(ev,T,m,st,s) == IF T.kind = "MC" THEN m.mat[st] ELSE m.mat[st][IdxOf(m.acts, ev.acts[ActOf(T.kind,T.L,s)])]
OutOf(T,i,s) == IF T.kind = "MC" THEN Out(T,i) ELSE OutAct(T,i,ActOf(T.kind,T.L,s))
Bad == << 0 >>
\* walk the merged tree and the returned model together: node -> state, or Bad
RECURSIVE Match(_,_,_,_,_)
Match(ev,T,m,todo,map) ==
  IF todo = << >> THEN map
  ELSE LET i == Head(todo)  st == map[i]
           syms == { s \in 1..T.K : T.kid[i][s] # 0 }
           cand(s) == LET row == RowOf(ev,T,m,st,s) IN { t \in 1..N(m) : row[t][1] # 0 /\ m.lab[t] = SymName(ev,T,s) }
           entries == IF T.kind = "MC" THEN Cardinality({ t \in 1..N(m) : m.mat[st][t][1] # 0 })
                      ELSE FoldLeft(LAMBDA a,x : a + Cardinality({ t \in 1..N(m) : m.mat[st][x][t][1] # 0 }), 0, [x \in 1..Len(m.acts) |-> x])
       IN IF entries # Cardinality(syms) \/ \E s \in syms : Cardinality(cand(s)) # 1 THEN Bad
          ELSE LET tgt == TLCEval([s \in syms |-> CHOOSE t \in cand(s) : TRUE])
                   okp == \A s \in syms : Close(RowOf(ev,T,m,st,s)[tgt[s]], RFrac(T.cnt[i][s],OutOf(T,i,s)))
                   okm == \A s \in syms : /\ T.kid[i][s] \in DOMAIN map => map[T.kid[i][s]] = tgt[s]
                                          /\ \A r \in syms : (T.kid[i][r] = T.kid[i][s]) = (tgt[r] = tgt[s])
                   new == { T.kid[i][s] : s \in syms } \ DOMAIN map
                   ext == [k \in new |-> tgt[CHOOSE s \in syms : T.kid[i][s] = k]]
               IN IF ~okp \/ ~okm THEN Bad ELSE Match(ev,T,m,Tail(todo) \o SetToSeq(new),TLCEval(map @@ ext))
StartOf(m) == { s \in 1..N(m) : m.lab[s] = "init" }
Same(ev,T,m) == LET s0 == CHOOSE s \in StartOf(m) : TRUE
                    map == Match(ev,T,m,<< 1 >>,(1 :> s0))
                IN map # Bad /\ Cardinality(DOMAIN map) = N(m) /\ Cardinality({ map[i] : i \in DOMAIN map }) = N(m)
Determ(m) == \A s \in 1..N(m) : \A t,u \in 1..N(m) : t # u /\ m.lab[t] = m.lab[u] =>
   IF m.k = "MC" THEN m.mat[s][t][1] = 0 \/ m.mat[s][u][1] = 0
   ELSE \A a \in 1..Len(m.acts) : m.mat[s][a][t][1] = 0 \/ m.mat[s][a][u][1] = 0
\* the model's trace of a sample entry
FullTrace(ev,T,tr) == IF T.kind = "MC" THEN << "init" >> \o [k \in 1..Len(tr) |-> SymName(ev,T,tr[k])]
   ELSE << "init" >> \o [k \in 1..(2*Len(tr)) |-> IF k % 2 = 1 THEN ev.acts[ActOf(T.kind,T.L,tr[(k+1) \div 2])] ELSE SymName(ev,T,tr[k \div 2])]
MergeFails(ev,o) ==
  IF ev.exc # "" THEN {"raised"} ELSE
  LET m == ev.res
      T0 == Tree(ev.kind,ev.K,ev.L,ev.ms)
      T == Run(T0,HConst(ev.alpha))
      used == { SymName(ev,T,s) : s \in { x \in 1..T.K : \E i \in 1..T0.n : T0.kid[i][x] # 0 } }
  IN F(m.k = (IF ev.kind = "MC" THEN "MC" ELSE "MDP"), "kind") \cup
  (IF Cardinality(StartOf(m)) # 1 \/ ~CloseSeq(m.init,[s \in 1..N(m) |-> Ind(m.lab[s] = "init")]) THEN {"initial-state"} ELSE
   F(RowsOK(m), "rows") \cup F(Determ(m), "deterministic")
   \cup F({ m.lab[s] : s \in 1..N(m) } = used \cup {"init"}, "labels")
   \cup (IF ev.kind = "MC" THEN {} ELSE F({ m.acts[a] : a \in 1..Len(m.acts) } = { ev.acts[a] : a \in 1..Len(ev.acts) } /\ Len(m.acts) = Len(ev.acts), "actions"))
   \cup (IF ev.kind = "IO" /\ \E a \in 1..Len(ev.acts) : IdxOf(m.acts,ev.acts[a]) = 0 THEN {} ELSE
     F(\A k \in 1..Len(ev.ms) : Prob(TrellisOf(m,FullTrace(ev,T,ev.ms[k].tr)))[1] > 0, "training-trace-impossible")
     \cup (IF T.amb THEN {} ELSE F(Same(ev,T,m), "merged-model"))))
Fails(ev,o) == CASE ev.op = "merge" -> MergeFails(ev,o) \cup F(~Changed(ev,o,{}), "training-set-changed")
Next == Consume(Fails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
