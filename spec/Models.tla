------------------------------ MODULE Models ------------------------------
(* Abstract model records (what a jajapy model means) and their trellises.  *)
(*  k    : "MC" | "HMM" | "MDP" | "CTMC" | "GOHMM"                           *)
(*         (an instantiated PCTMC is evaluated into its "CTMC" record)       *)
(*  init : initial distribution      mat : n x n (MDP: n x actions x n)      *)
(*  lab  : state labels (MC,MDP,CTMC)   acts : actions (MDP)                 *)
(*  alpha, out : alphabet and emission matrix (HMM); GOHMM out[s] is the     *)
(*         sequence of << mean, sd >>                                        *)
(* A trace is a sequence: MC/HMM/CTMC labels; MDP label,action,label,..;     *)
(* timed CTMC label,dwell,label,..; GOHMM vectors.                           *)
EXTENDS Trellis

N(m) == Len(m.init)
Ind(b) == IF b THEN ROne ELSE RZero
\* labels (1,3,5,..) and actions/dwells (2,4,..) of an alternating trace
Odds(tr)  == [i \in 1..((Len(tr)+1) \div 2) |-> tr[2*i-1]]
Evens(tr) == [i \in 1..(Len(tr) \div 2) |-> tr[2*i]]
IdxOf(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x
                 THEN CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i-1) : seq[j] # x
                 ELSE 0

LabW(m,obs) == TLCEval([k \in 1..Len(obs) |-> [s \in 1..N(m) |-> Ind(m.lab[s] = obs[k])]])
Const(m,A,len) == [k \in 1..len |-> A]

ExitRates(m) == TLCEval([s \in 1..N(m) |-> RSum(m.mat[s])])
\* jump probabilities; an absorbing state has none
JumpMat(m) == LET e == ExitRates(m)
              IN TLCEval([s \in 1..N(m) |-> [u \in 1..N(m) |->
                    IF e[s][1] = 0 THEN RZero ELSE RDiv(m.mat[s][u], e[s])]])

GoB(m,s,vec) == FoldLeft(LAMBDA a,i : RMul(a, NormalPdf(vec[i], m.out[s][i][1], m.out[s][i][2])),
                         ROne, [i \in 1..Len(m.out[s]) |-> i])

TrellisOf(m,tr) ==
  CASE m.k = "MC"   -> [init |-> m.init, w |-> LabW(m,tr), M |-> Const(m,m.mat,Len(tr)-1)]
    [] m.k = "HMM"  -> [init |-> m.init,
                        w |-> TLCEval([k \in 1..Len(tr) |-> LET o == IdxOf(m.alpha, tr[k])
                               IN [s \in 1..N(m) |-> IF o = 0 THEN RZero ELSE m.out[s][o]]]),
                        M |-> Const(m,m.mat,Len(tr)-1)]
    [] m.k = "MDP"  -> LET obs == Odds(tr)  act == Evens(tr)
                       IN [init |-> m.init, w |-> LabW(m,obs),
                           M |-> TLCEval([k \in 1..Len(act) |-> LET a == IdxOf(m.acts, act[k])
                                  IN [s \in 1..N(m) |-> [u \in 1..N(m) |->
                                        IF a = 0 THEN RZero ELSE m.mat[s][a][u]]]])]
    [] m.k = "CTMC" -> [init |-> m.init, w |-> LabW(m,tr), M |-> Const(m,JumpMat(m),Len(tr)-1)]
    [] m.k = "GOHMM"-> [init |-> m.init,
                        w |-> TLCEval([k \in 1..Len(tr) |-> [s \in 1..N(m) |-> GoB(m,s,tr[k])]]),
                        M |-> Const(m,m.mat,Len(tr)-1)]
\* timed traces of a CTMC: density of labels and dwell times
TimedTrellisOf(m,tr) ==
  LET obs == Odds(tr)
      dw  == Evens(tr)
      e   == ExitRates(m)
      w0  == LabW(m,obs)
  IN [init |-> m.init,
      w |-> TLCEval([k \in 1..Len(obs) |-> [s \in 1..N(m) |->
              IF k > Len(dw) \/ w0[k][s][1] = 0 THEN w0[k][s]
              ELSE Exp(RNeg(RMul(e[s],dw[k])))]]),
      M |-> Const(m,m.mat,Len(dw))]
TrellisFor(m,tr,timed) == IF timed THEN TimedTrellisOf(m,tr) ELSE TrellisOf(m,tr)

\* a training/test multiset is a sequence of [tr |-> trace, n |-> multiplicity]
RECURSIVE NSum(_,_)
NSum(ms,i) == IF i = 0 THEN 0 ELSE ms[i].n + NSum(ms,i-1)
Total(ms) == NSum(ms, Len(ms))

\* weighted sum of ln P over the traces that are possible
SumLogs(ps,ms) == RSum([i \in 1..Len(ms) |-> IF ps[i][1] = 0 THEN RZero
                                             ELSE RMul(ROf(ms[i].n), Ln(ps[i]))])
Probs(m,ms,timed) == TLCEval([i \in 1..Len(ms) |-> Prob(TrellisFor(m,ms[i].tr,timed))])
LogLik(m,ms,timed) == LET ps == Probs(m,ms,timed)
                      IN RDiv(SumLogs(ps,ms), ROf(Total(ms)))

RowOK(r) == /\ \A i \in 1..Len(r) : IsFin(r[i]) /\ r[i][1] >= 0
            /\ LET s == RSum(r) IN s[1] = 0 \/ Close(s, ROne)
=============================================================================
