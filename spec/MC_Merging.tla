----------------------------- MODULE MC_Merging -----------------------------
(* Design model: state merging, one merge or promotion per step, over every   *)
(* small sample.  Every sample is also replayed on the real code (GEN).       *)
EXTENDS Merging, Json, FiniteSets
CONSTANTS KIND, NSYM, NLAB, LEN, NTR, MULTS, AL
M1 == << 1, 40 >>
A1 == << 1,2 >>
A2 == << 1,20 >>
VARIABLES ms, T, c
vars == << ms, T, c >>
Traces == UNION { [1..k -> 1..NSYM] : k \in 1..LEN }
Seqs == TLCEval(SetToSortSeq(Traces,LexLt))
\* samples: strictly increasing choices of traces with multiplicities
Picks == UNION { { f \in [1..k -> 1..Len(Seqs)] : \A i \in 1..(k-1) : f[i] < f[i+1] } : k \in 1..NTR }
Samples == { [i \in 1..Len(f) |-> [tr |-> Seqs[f[i]], n |-> IF i \in big THEN MULTS[2] ELSE MULTS[1]]] : f \in Picks, big \in SUBSET (1..NTR) }
Init == /\ ms \in Samples /\ c = HConst(RFrac(AL[1],AL[2])) /\ T = Tree(KIND,NSYM,NLAB,ms)
Next == ~Done(T) /\ T' = Step(T,c) /\ UNCHANGED << ms,c >>
Spec == Init /\ [][Next]_vars
Total == FoldLeft(LAMBDA a,e : a + e.n, 0, ms)
Live == ReachN(T,{1})
InFlow(i) == LET E == SetToSeq({ e \in Live \X (1..NSYM) : T.kid[e[1]][e[2]] = i })
             IN FoldLeft(LAMBDA a,e : a + T.cnt[e[1]][e[2]], IF i = 1 THEN Total ELSE 0, E)
\* frequencies are conserved: what enters a state leaves it or stops in it
Flow == \A i \in Live : InFlow(i) = Out(T,i) + T.stop[i]
Stops == FoldLeft(LAMBDA a,i : a + T.stop[i], 0, SetToSeq(Live)) = Total
\* every trace of the sample stays possible
Explains == \A k \in 1..Len(ms) : Walk(T,1,ms[k].tr,1) # 0
Positive == \A i \in Live : \A s \in 1..NSYM : (T.kid[i][s] = 0) = (T.cnt[i][s] = 0)
Labels == \A i \in Live : \A s \in 1..NSYM : T.kid[i][s] # 0 => T.lab[T.kid[i][s]] = LabelOf(KIND,NLAB,s)
RedLive == RedSet(T) \subseteq Live /\ Cardinality(RedSet(T)) = Len(T.red)
\* the part not yet merged is a tree hanging below the red nodes
BlueTree == \A i \in Live \ RedSet(T) : Cardinality({ e \in Live \X (1..NSYM) : T.kid[e[1]][e[2]] = i }) = 1
\* every step uses up a blue node: the algorithm terminates
Progress == [][Cardinality(ReachN(T',{1})) < Cardinality(Live) \/ Len(T'.red) > Len(T.red) \/ T'.amb]_vars
Emit == Len(T.red) > 1 \/ T # Tree(KIND,NSYM,NLAB,ms) \/ PrintT("GEN " \o ToJson([ms |-> ms, al |-> AL]))
=============================================================================
