-------------------------------- MODULE EM --------------------------------
(* One Baum-Welch iteration for each model class, as an action on the        *)
(* hypothesis: EMStep(m, ms, timed, fixed) is the next hypothesis.           *)
(* Traces that are impossible under the hypothesis do not count.             *)
EXTENDS Models

\* posteriors of the possible traces, with multiplicities
Posts(m,ms,timed) ==
  LET all == [i \in 1..Len(ms) |-> [p |-> Posterior(TrellisFor(m,ms[i].tr,timed)), n |-> ROf(ms[i].n), tr |-> ms[i].tr]]
  IN SelectSeq(TLCEval(all), LAMBDA q : q.p.P[1] # 0)
SeqSumOver(qs, F(_)) == RSum([i \in 1..Len(qs) |-> RMul(qs[i].n, F(qs[i]))])
SumK(len, F(_)) == RSum([k \in 1..len |-> F(k)])

TotalLogLik(qs) == RSum([i \in 1..Len(qs) |-> RMul(qs[i].n, Ln(qs[i].p.P))])

\* expected number of visits / jumps.  jajapy also counts the (unobserved)
\* jump taken after the last observation, distributed as the current row.
Visits(qs,s) == SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.g), LAMBDA k : q.p.g[k][s]))
LastVisits(qs,s) == SeqSumOver(qs, LAMBDA q : q.p.g[Len(q.p.g)][s])
Jumps(qs,s,u) == SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.x), LAMBDA k : q.p.x[k][s][u]))
JumpsExt(qs,row,s,u) == RAdd(Jumps(qs,s,u), RMul(LastVisits(qs,s), row[u]))

RowMC(qs,row,s) ==
  LET d == Visits(qs,s)
  IN IF d[1] = 0 THEN row
     ELSE TLCEval([u \in 1..Len(row) |-> RDiv(JumpsExt(qs,row,s,u), d)])

StepMC(m,qs) == [m EXCEPT !.mat = TLCEval([s \in 1..N(m) |-> RowMC(qs, m.mat[s], s)])]

InitStep(m,qs) ==
  LET c == [s \in 1..N(m) |-> SeqSumOver(qs, LAMBDA q : q.p.g[1][s])]
      t == RSum(c)
  IN TLCEval([s \in 1..N(m) |-> RDiv(c[s],t)])
StepHMM(m,qs) ==
  [m EXCEPT !.mat = TLCEval([s \in 1..N(m) |-> RowMC(qs, m.mat[s], s)]),
            !.init = InitStep(m,qs),
            !.out = TLCEval([s \in 1..N(m) |->
               LET d == Visits(qs,s)
               IN IF d[1] = 0 THEN m.out[s]
                  ELSE [o \in 1..Len(m.alpha) |->
                     RDiv(SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.g),
                             LAMBDA k : IF q.tr[k] = m.alpha[o] THEN q.p.g[k][s] ELSE RZero)), d)]])]

StepMDP(m,qs) ==
  [m EXCEPT !.mat = TLCEval([s \in 1..N(m) |-> [a \in 1..Len(m.acts) |->
     LET Use(q,k) == q.tr[2*k] = m.acts[a]
         d == SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.x), LAMBDA k : IF Use(q,k) THEN q.p.g[k][s] ELSE RZero))
     IN IF d[1] = 0 THEN m.mat[s][a]
        ELSE [u \in 1..N(m) |-> RDiv(SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.x),
                LAMBDA k : IF Use(q,k) THEN q.p.x[k][s][u] ELSE RZero)), d)]]])]

\* expected total time spent in s (timed traces)
Dwell(qs,s) == SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.x), LAMBDA k : RMul(q.p.g[k][s], q.tr[2*k])))
StepCTMCTimed(m,qs,fixed) ==
  [m EXCEPT !.mat = TLCEval([s \in 1..N(m) |->
     LET d == Dwell(qs,s)
     IN [u \in 1..N(m) |-> IF fixed[s][u] \/ d[1] = 0 THEN m.mat[s][u]
                           ELSE RDiv(Jumps(qs,s,u), d)]])]
\* untimed traces only carry jump probabilities: the new rates are the
\* re-estimated jump probabilities (unit exit rate)
StepCTMCUntimed(m,qs,fixed) ==
  LET J == JumpMat(m)
  IN [m EXCEPT !.mat = TLCEval([s \in 1..N(m) |->
       LET d == Visits(qs,s)
       IN [u \in 1..N(m) |-> IF fixed[s][u] \/ d[1] = 0 THEN m.mat[s][u]
                             ELSE RDiv(JumpsExt(qs,J[s],s,u), d)]])]

StepGoHMM(m,qs) ==
  [m EXCEPT !.mat = TLCEval([s \in 1..N(m) |-> RowMC(qs, m.mat[s], s)]),
            !.init = InitStep(m,qs),
            !.out = TLCEval([s \in 1..N(m) |->
               LET d == Visits(qs,s)
               IN IF d[1] = 0 THEN m.out[s]
                  ELSE [i \in 1..Len(m.out[s]) |->
                     << RDiv(SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.g), LAMBDA k : RMul(q.p.g[k][s], q.tr[k][i]))), d),
                        Sqrt(RTrunc(RDiv(SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.g), LAMBDA k :
                               RMul(q.p.g[k][s], LET z == RSub(q.tr[k][i], m.out[s][i][1]) IN RMul(z,z)))), d),PREC+4)) >>]])]

StepWith(m,qs,timed,fixed) ==
  CASE m.k = "MC"   -> StepMC(m,qs)
    [] m.k = "HMM"  -> StepHMM(m,qs)
    [] m.k = "MDP"  -> StepMDP(m,qs)
    [] m.k = "GOHMM"-> StepGoHMM(m,qs)
    [] m.k = "CTMC" -> IF timed THEN StepCTMCTimed(m,qs,fixed) ELSE StepCTMCUntimed(m,qs,fixed)
\* (the singleton set binds a value: TLC would evaluate a lazy argument again and again)
EMStep(m,ms,timed,fixed) == CHOOSE r \in { StepWith(m, qs, timed, fixed) : qs \in {Posts(m,ms,timed)} } : TRUE
=============================================================================
