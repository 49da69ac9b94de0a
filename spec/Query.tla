------------------------------- MODULE Query -------------------------------
(* What the accessors of a model must answer, from its parameters.            *)
(* States are 0-based in arguments (as in the code), 1-based in records.      *)
EXTENDS Models

Mem(seq,x) == \E i \in 1..Len(seq) : seq[i] = x
\* transition "probability" between s and t, without looking at the label
AOf(m,s,t,act) == CASE m.k = "MDP" -> m.mat[s+1][IdxOf(m.acts,act)][t+1]
                    [] OTHER -> m.mat[s+1][t+1]
ExitOf(m,s) == RSum(m.mat[s+1])
BOf(m,s,obs) == CASE m.k = "HMM" -> LET i == IdxOf(m.alpha,obs) IN IF i = 0 THEN RZero ELSE m.out[s+1][i]
                  [] m.k = "GOHMM" -> GoB(m,s+1,obs)
                  [] OTHER -> Ind(m.lab[s+1] = obs)
LOf(m,s,t,obs) == IF m.lab[s+1] = obs THEN m.mat[s+1][t+1] ELSE RZero
TauOf(m,s,t,obs,act) ==
  CASE m.k \in {"HMM","GOHMM"} -> RMul(m.mat[s+1][t+1], BOf(m,s,obs))
    [] m.k = "MC" -> LOf(m,s,t,obs)
    [] m.k = "MDP" -> IF m.lab[s+1] = obs /\ Mem(m.acts,act) THEN AOf(m,s,t,act) ELSE RZero
    [] m.k = "CTMC" -> LET e == ExitOf(m,s) IN IF e[1] = 0 THEN RZero ELSE RDiv(LOf(m,s,t,obs),e)
LklOf(m,s,d) == LET e == ExitOf(m,s) IN IF d[1] < 0 THEN RZero ELSE RMul(e, Exp(RNeg(RMul(e,d))))
ActionsOf(m,s) == { m.acts[a] : a \in { i \in 1..Len(m.acts) : RSum(m.mat[s+1][i])[1] # 0 } }
\* the MC of jump probabilities
JumpMC(m) == [k |-> "MC", name |-> m.name, init |-> m.init, mat |-> JumpMat(m), lab |-> m.lab, alph |-> m.alph]
=============================================================================
