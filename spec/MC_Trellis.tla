---------------------------- MODULE MC_Trellis ----------------------------
(* Design model: on every 2-state trellis of a grid, the forward recursion   *)
(* computes the sum over state paths, and the posterior is consistent.       *)
EXTENDS Trellis
VARIABLES t, done
H == RFrac(1,2)
Rows == { << RZero,RZero >>, << ROne,RZero >>, << RZero,ROne >>, << H,H >>, << RFrac(1,4),RFrac(3,4) >> }
Inits == { << ROne,RZero >>, << H,H >>, << RFrac(1,3),RFrac(2,3) >> }
Ws == { << ROne,RZero >>, << RZero,ROne >>, << ROne,ROne >>, << H,RFrac(1,3) >>, << RZero,RZero >> }
Init == /\ done = FALSE
        /\ \E i \in Inits, r1,r2 \in Rows, w1,w2,w3 \in Ws, len \in 1..3 :
             t = [init |-> i, w |-> SubSeq(<< w1,w2,w3 >>,1,len), M |-> [k \in 1..(len-1) |-> << r1,r2 >>]]
Next == done = FALSE /\ done' = TRUE /\ t' = t
Spec == Init /\ [][Next]_<< t,done >>
PathSum == Prob(t) = PathProb(t)
\* sum_s alpha_k(s) beta_k(s) is the probability, for every k
Invariant2 == LET al == Forward(t) be == Backward(t)
              IN \A k \in 1..Steps(t) : RDot(al[k],be[k]) = Prob(t)
PosteriorOK ==
  LET q == Posterior(t)
  IN q.P[1] = 0 \/ /\ \A k \in 1..Steps(t) : RSum(q.g[k]) = ROne
                   /\ \A k \in 1..(Steps(t)-1) : \A s \in 1..2 : RSum(q.x[k][s]) = q.g[k][s]
                   /\ \A k \in 1..(Steps(t)-1) : \A u \in 1..2 : RAdd(q.x[k][1][u],q.x[k][2][u]) = q.g[k+1][u]
=============================================================================
