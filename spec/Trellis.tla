------------------------------ MODULE Trellis ------------------------------
(* A trellis is the unrolled hidden process that generates one trace:        *)
(*   init : initial weights per state                                        *)
(*   w    : w[k][s]     weight of state s for the k-th observation, 1..m     *)
(*   M    : M[k][s][s'] weight of moving s -> s' between steps k and k+1     *)
(* Every jajapy model class maps a trace to a trellis (Models.tla); the      *)
(* probability (density) of the trace is the sum over all state paths of     *)
(*   init[s1] w[1][s1] M[1][s1][s2] w[2][s2] ... w[m][sm].                   *)
EXTENDS Real, FiniteSets

Had(u,v) == TLCEval([i \in 1..Len(u) |-> RMul(u[i],v[i])])
Transp(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
VecMat(u,A) == LET B == Transp(A) IN TLCEval([j \in 1..Len(B) |-> RDot(u,B[j])])
MatVec(A,v) == TLCEval([i \in 1..Len(A) |-> RDot(A[i],v)])
Steps(t) == Len(t.w)

\* al[k][s]: weight of all prefixes that end in s after explaining k observations
Forward(t) ==
  FoldLeft(LAMBDA al,k : Append(al, Had(VecMat(al[k],t.M[k]), t.w[k+1])),
           << Had(t.init,t.w[1]) >>, [k \in 1..(Steps(t)-1) |-> k])
\* be[k][s]: weight of explaining observations k+1..m from s
Backward(t) ==
  LET m == Steps(t)
      n == Len(t.init)
      step(be,i) == LET k == m - i
                    IN << MatVec(t.M[k], Had(t.w[k+1], be[1])) >> \o be
  IN FoldLeft(step, << [s \in 1..n |-> ROne] >>, [i \in 1..(m-1) |-> i])

Prob(t) == RSum(Forward(t)[Steps(t)])

\* independent definition, by enumeration of the state paths (MC_Trellis checks equality)
Paths(t) == [1..Steps(t) -> 1..Len(t.init)]
RECURSIVE PathW(_,_,_)
PathW(t,p,k) == IF k = 1 THEN RMul(t.init[p[1]], t.w[1][p[1]])
                ELSE RMul(PathW(t,p,k-1), RMul(t.M[k-1][p[k-1]][p[k]], t.w[k][p[k]]))
PathProb(t) == LET ps == SetToSeq(Paths(t))
               IN RSum([i \in 1..Len(ps) |-> PathW(t,ps[i],Steps(t))])

\* posterior: [P |-> probability, g |-> gamma[k][s], x |-> xi[k][s][s'] (k < m)]
Posterior(t) ==
  LET al == TLCEval(Forward(t))
      be == TLCEval(Backward(t))
      m  == Steps(t)
      n  == Len(t.init)
      P  == TLCEval(RSum(al[m]))
      iP == IF P[1] = 0 THEN RZero ELSE RInv(P)
  IN TLCEval([ P |-> P,
       g |-> [k \in 1..m |-> [s \in 1..n |-> RMul(RMul(al[k][s],be[k][s]),iP)]],
       x |-> [k \in 1..(m-1) |-> [s \in 1..n |-> [u \in 1..n |->
                IF al[k][s][1] = 0 THEN RZero
                ELSE RMul(RMul(al[k][s], t.M[k][s][u]), RMul(RMul(t.w[k+1][u], be[k+1][u]), iP))]]] ])
=============================================================================
