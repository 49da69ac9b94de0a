-------------------------------- MODULE Runs --------------------------------
(* What a generated trace of a model may look like, and how often.            *)
(* A trace is a sequence of labels (MC, HMM, untimed CTMC), of vectors        *)
(* (GoHMM) or of alternating labels and dwell times (timed CTMC).             *)
EXTENDS Freq
Labels(tr,timed) == IF timed THEN Odds(tr) ELSE tr
Dwells(tr) == Evens(tr)
From(m,s) == IF s < 0 THEN m ELSE [m EXCEPT !.init = [i \in 1..N(m) |-> Ind(i = s+1)]]
Can(m,labels) == Prob(TrellisOf(m,labels))[1] > 0
\* hidden states the run may be in after these labels
LastStates(m,labels) == LET al == Forward(TrellisOf(m,labels)) IN { s \in 1..N(m) : al[Len(al)][s][1] > 0 }
RowMass(m,s) == RSum(m.mat[s])
\* number of steps a trace with k labels took
StepsOf(m,k) == IF m.k \in {"HMM","GOHMM"} THEN k ELSE k - 1
\* a run asked for n steps
Possible(m,tr,timed) == m.k = "GOHMM" \/ Can(m,Labels(tr,timed))
RightLength(m,tr,timed,n) ==
  LET k == StepsOf(m,Len(Labels(tr,timed))) IN
  k = n \/ (k < n /\ m.k = "CTMC" /\ \E s \in LastStates(m,Labels(tr,timed)) : RowMass(m,s)[1] = 0)
WellTimed(tr,timed) == ~timed \/ (Len(tr) % 2 = 1 /\ \A i \in 1..Len(tr) : i % 2 = 0 => (IsFin(tr[i]) /\ tr[i][1] >= 0))
\* probability that a run starts with these labels, the k-th dwell time being at most th[k]
\* (k-th vector below th[k] component-wise); "none": no constraint
ThW(m,s,th,k) == CASE m.k = "CTMC" -> DwellBelow(RowMass(m,s),th[k].v[1])
                   [] m.k = "GOHMM" -> FoldLeft(LAMBDA a,j : IF th[k].on[j] = 0 THEN a ELSE Tr(RMul(a,GaussBelow(th[k].v[j],m.out[s][j][1],m.out[s][j][2]))),
                                                ROne, [j \in 1..Len(th[k].v) |-> j])
PrefixP(m,pre,th) ==
  LET base == IF m.k = "GOHMM"
              THEN [init |-> m.init, w |-> [k \in 1..Len(th) |-> [s \in 1..N(m) |-> ROne]], M |-> [k \in 1..(Len(th)-1) |-> m.mat]]
              ELSE TrellisOf(m,pre)
  IN Prob([base EXCEPT !.w = TLCEval([k \in 1..Len(base.w) |-> [s \in 1..N(m) |->
             IF k <= Len(th) /\ Len(th[k].v) > 0 /\ base.w[k][s][1] # 0 THEN RMul(base.w[k][s], ThW(m,s,th,k)) ELSE base.w[k][s]]])])
\* geometric lengths: P(steps = min + k) = (1-q)^(k-1) q, k >= 1
GeoP(q,k) == IF k < 1 THEN RZero ELSE RTrunc(RMul(RPow(RSub(ROne,q),k-1),q),20)
=============================================================================
