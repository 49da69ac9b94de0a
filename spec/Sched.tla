------------------------------- MODULE Sched --------------------------------
(* Schedulers.  A finite-memory scheduler is an automaton                     *)
(*   f = [acts |-> << [p |-> << .. >>, a |-> << .. >>] per memory state >>,   *)
(*        tr   |-> << [o |-> obs, d |-> << next memory state .. >>] >>]       *)
(* memory states are 0-based; 0 is initial; an observation without table      *)
(* leaves the memory unchanged.                                               *)
EXTENDS Freq
Move(f,s,o) == LET h == { i \in 1..Len(f.tr) : f.tr[i].o = o } IN IF h = {} THEN s ELSE f.tr[CHOOSE i \in h : TRUE].d[s+1]
MemAfter(f,seq) == FoldLeft(LAMBDA s,o : Move(f,s,o), 0, seq)
MemSeq(f,seq) == [i \in 1..Len(seq)+1 |-> MemAfter(f,SubSeq(seq,1,i-1))]
Sg(f,s,a) == LET h == { i \in 1..Len(f.acts[s+1].a) : f.acts[s+1].a[i] = a } IN IF h = {} THEN RZero ELSE f.acts[s+1].p[CHOOSE i \in h : TRUE]
\* schedulers as functions of memory and (hidden) state: uniform, memoryless (pol), finite memory
Weight(sc,mem,s,a) == CASE sc.kind = "uniform" -> (IF IdxOf(sc.alist,a) = 0 THEN RZero ELSE ROne)
                        [] sc.kind = "memoryless" -> Ind(sc.pol[s] = a)
                        [] sc.kind = "fms" -> Sg(sc,mem,a)
Avail(m,s) == { a \in 1..Len(m.acts) : RSum(m.mat[s][a])[1] # 0 }
\* unavailable actions are drawn again
Choice(m,sc,mem,s,ai) ==
  IF ai \notin Avail(m,s) THEN RZero
  ELSE LET w == Weight(sc,mem,s,m.acts[ai])
           t == RSum([b \in 1..Len(m.acts) |-> IF b \in Avail(m,s) THEN Weight(sc,mem,s,m.acts[b]) ELSE RZero])
       IN IF w[1] = 0 THEN RZero ELSE RDiv(w,t)
\* trellis of a run  o1 a1 o2 a2 .. on  under a scheduler that has been told the first k-lag observations when it chooses a_k
SchedTrellis(m,sc,tr,lag) ==
  LET obs == Odds(tr)  act == Evens(tr)
      mem(k) == IF sc.kind = "fms" THEN MemAfter(sc,SubSeq(obs,1,k-lag)) ELSE 0
  IN [init |-> m.init, w |-> LabW(m,obs),
      M |-> TLCEval([k \in 1..Len(act) |-> LET ai == IdxOf(m.acts,act[k]) IN
              [s \in 1..N(m) |-> [u \in 1..N(m) |->
                 IF ai = 0 \/ m.mat[s][ai][u][1] = 0 THEN RZero ELSE RMul(Choice(m,sc,mem(k),s,ai), m.mat[s][ai][u])]]])]
StartIn(m,s) == IF s < 0 THEN m ELSE [m EXCEPT !.init = [i \in 1..N(m) |-> Ind(i = s+1)]]
=============================================================================
