------------------------------- MODULE MC_Runs ------------------------------
(* Design model of simulation: every run of every small model (MC, CTMC with  *)
(* absorbing states, MDP) is a possible trace by the definition the conformance checks use,     *)
(* only possible traces are runs, and trace probabilities sum to 1.           *)
EXTENDS Runs
CONSTANT STEPS, KINDS
VARIABLES m, cur, out, paths
vars == << m, cur, out, paths >>
H == RHalf
Rows == { << ROne, RZero >>, << RZero, ROne >>, << H, H >> }
CRows == { << RZero, RZero >>, << RZero, ROf(2) >>, << ROne, ROf(3) >> }
LabsS == { << "a","a","init" >>, << "a","b","init" >>, << "init","b","init" >> }
Inits(lab) == LET n == Cardinality({ i \in 1..3 : lab[i] = "init" }) IN [i \in 1..3 |-> IF lab[i] = "init" THEN RFrac(1,n) ELSE RZero]
Mods(k) == { [k |-> k, name |-> "", init |-> Inits(lab), lab |-> lab, mat |-> << Append(r1,RZero), Append(r2,RZero), Append(r3,RZero) >>] :
               r1 \in IF k = "MC" THEN Rows ELSE CRows, r2 \in IF k = "MC" THEN Rows ELSE CRows, r3 \in Rows, lab \in LabsS }
Starts(x) == { s \in 1..3 : x.init[s][1] > 0 }
\* a simulator: current state, labels so far; ends in a state without outgoing transitions
Init == \E k \in KINDS : m \in Mods(k) /\ cur \in Starts(m) /\ out = << m.lab[cur] >> /\ paths = m.init[cur]
Next == /\ Len(out) <= STEPS
        /\ \E u \in 1..3 : /\ m.mat[cur][u][1] > 0
                           /\ cur' = u /\ out' = Append(out, m.lab[u])
                           /\ paths' = RMul(paths, RDiv(m.mat[cur][u], RowMass(m,cur)))
        /\ UNCHANGED m
Spec == Init /\ [][Next]_vars
RunIsPossible == Possible(m,out,FALSE) /\ cur \in LastStates(m,out)
LengthOK == (Len(out) = STEPS+1 \/ RowMass(m,cur)[1] = 0) => RightLength(m,out,FALSE,STEPS)
\* the probability of the labels is at least that of this path
Weight == RLe(paths, PrefixP(m,out,<< >>))
\* prefixes of one length partition the runs of that length (MC)
Total1 == (m.k = "MC" /\ Len(out) = 1) =>
   \A k \in 1..STEPS : LET q == SetToSeq([1..k -> {"a","b","init"}]) IN RSum([i \in 1..Len(q) |-> PrefixP(m,q[i],<< >>)]) = ROne
\* nothing else is possible: a label sequence of positive probability is a run
OnlyRuns == (Len(out) = 1) => \A w \in [1..3 -> {"a","b","init"}] :
   (Can(m,w) <=> \E p \in [1..3 -> 1..3] : p[1] \in Starts(m) /\ (\A k \in 1..3 : m.lab[p[k]] = w[k]) /\ \A k \in 1..2 : m.mat[p[k]][p[k+1]][1] > 0)
\* dwell-time constraints only lower the probability, and no constraint is the limit
ASSUME LET x == PrefixP([k |-> "CTMC", name |-> "", init |-> << ROne,RZero >>, lab |-> << "a","b" >>, mat |-> << << RZero, ROf(2) >>, << ROne, RZero >> >>], << "a","b" >>,
                        << [v |-> << RFrac(1,2) >>] >>) IN Close(x, RSub(ROne,Exp(RNeg(ROne))))
ASSUME Close(Phi(RZero),RHalf) /\ Close(Phi(ROne),RFrac(84134474,100000000)) /\ Close(Phi(ROf(-2)),RFrac(2275013,100000000)) /\ Close(RAdd(Phi(ROf(5)),Phi(ROf(-5))),ROne)
ASSUME Fits(500,1000,RHalf) /\ ~Fits(700,1000,RHalf) /\ Fits(0,1000,RZero) /\ Fits(1000,1000,ROne)
=============================================================================
