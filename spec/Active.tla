------------------------------- MODULE Active -------------------------------
(* Active Baum-Welch for MDPs.  The learner's state is its hypothesis h and   *)
(* the multiset `total` of all traces so far.  One active iteration draws a   *)
(* sample of runs of the system under learning and then                       *)
(*   lr = 0         refits h on total,                                        *)
(*   lr a number    blends h with its refit on the sample, with weight lr,    *)
(*   lr = dynamic   the same, with weight |sample| / |total|.                 *)
(* Samples are drawn under a scheduler that keeps a belief over the states of *)
(* h and prefers, in each state, the actions used less often there.           *)
EXTENDS EM
DIGITS == 10                          \* hypotheses are kept to 4*DIGITS decimals
RoundMat(A) == TLCEval([s \in 1..Len(A) |-> [a \in 1..Len(A[s]) |-> [u \in 1..Len(A[s][a]) |-> RTrunc(A[s][a][u],DIGITS)]]])
RoundM(m) == [m EXCEPT !.mat = RoundMat(m.mat)]
CanLearn(m,ms) == \E i \in 1..Len(ms) : Prob(TrellisOf(m,ms[i].tr))[1] # 0
\* (posteriors are truncated as well: sums of fractions with unrelated denominators explode)
TruncPost(q) == [q EXCEPT !.p = TLCEval([P |-> q.p.P,
   g |-> [k \in 1..Len(q.p.g) |-> [s \in 1..Len(q.p.g[k]) |-> RTrunc(q.p.g[k][s],2*DIGITS)]],
   x |-> [k \in 1..Len(q.p.x) |-> [s \in 1..Len(q.p.x[k]) |-> [u \in 1..Len(q.p.x[k][s]) |-> RTrunc(q.p.x[k][s][u],2*DIGITS)]]]])]
PostsR(m,ms) == LET qs == Posts(m,ms,FALSE) IN TLCEval([i \in 1..Len(qs) |-> TruncPost(qs[i])])
\* (the singleton sets bind values: TLC would evaluate a lazy argument again and again)
EMR(m,ms) == CHOOSE r \in { RoundM(StepMDP(m,q)) : q \in {PostsR(m,ms)} } : TRUE
FitK(m,ms,k) == FoldLeft(LAMBDA h,i : EMR(h,ms), m, [i \in 1..k |-> i])
AddTrace(ms,tr,n) == LET h == { i \in 1..Len(ms) : ms[i].tr = tr } IN
  IF h = {} THEN Append(ms,[tr |-> tr, n |-> n]) ELSE [ms EXCEPT ![CHOOSE i \in h : TRUE].n = @ + n]
AddAll(ms,ss) == FoldLeft(LAMBDA acc,e : AddTrace(acc,e.tr,e.n), ms, ss)
Blend(new,old,w) == [old EXCEPT !.mat = RoundMat([s \in 1..N(old) |-> [a \in 1..Len(old.acts) |-> [u \in 1..N(old) |->
                       RAdd(RMul(w,new.mat[s][a][u]), RMul(RSub(ROne,w),old.mat[s][a][u]))]]])]
WeightOf(lr,sample,total) == IF lr.kind = "dynamic" THEN RFrac(Total(sample),Total(total)) ELSE lr.v
\* total already contains the sample
Learn(h,sample,total,lr,k) ==
  IF lr.kind = "zero" THEN FitK(h,total,k)
  ELSE Blend(FitK(h,sample,k), h, WeightOf(lr,sample,total))
LearnsFrom(sample,total,lr) == IF lr.kind = "zero" THEN total ELSE sample

\* --- the active scheduler
\* expected number of times each action was used in each state
UseCounts(h,ms) ==
  LET qs == PostsR(h,ms) IN
  TLCEval([s \in 1..N(h) |-> [a \in 1..Len(h.acts) |->
     SeqSumOver(qs, LAMBDA q : SumK(Len(q.p.x), LAMBDA k : IF q.tr[2*k] = h.acts[a] THEN q.p.g[k][s] ELSE RZero))]])
\* belief after action a (index) when observation obs is told: the state left showed obs
Told(h,b,a,obs) == IF RSum(b)[1] = 0 THEN b ELSE
  TLCEval([u \in 1..N(h) |-> RSum([s \in 1..N(h) |-> IF h.lab[s] = obs THEN RMul(b[s],h.mat[s][a][u]) ELSE RZero])])
Counted(h,cnt,b,a) == IF RSum(b)[1] = 0 THEN cnt ELSE
  TLCEval([s \in 1..N(h) |-> [cnt[s] EXCEPT ![a] = RTrunc(RAdd(@,RDiv(b[s],RSum(b))),DIGITS)]])
\* preferences in one state; `refused` actions were not available in this step
Wants(row,refused) ==
  LET t == RSum(row)
      w == [a \in 1..Len(row) |-> IF a \in refused THEN RZero ELSE RMax(RSub(t,row[a]),RZero)]
  IN IF RSum(w)[1] > 0 THEN w ELSE [a \in 1..Len(row) |-> Ind(a \notin refused)]
ChoiceP(h,cnt,b,refused) ==
  LET tb == RSum(b) IN
  TLCEval([a \in 1..Len(h.acts) |-> RSum([s \in 1..N(h) |->
    LET w == Wants(cnt[s],refused) IN RMul(IF tb[1] = 0 THEN RFrac(1,N(h)) ELSE RDiv(b[s],tb), RDiv(w[a],RSum(w)))])])
=============================================================================
