------------------------------- MODULE MC_EM -------------------------------
(* Design model of Baum-Welch: iterating the EM step of every model class    *)
(* from a grid of hypotheses and training multisets.                          *)
(* LL is compared exactly through the product of the trace probabilities.     *)
EXTENDS EM
CONSTANTS KIND, DEPTH, PAIRS
VARIABLES h, ms, prev, it
vars == << h, ms, prev, it >>
Hf == RFrac(1,2)
Ps == { RFrac(1,4), Hf, ROne }
Row2(p) == << p, RSub(ROne,p) >>
Letters == { "a","b" }
Words == UNION { [1..n -> Letters] : n \in 1..3 }
Untimed(W) == W
Acts == { "x","y" }
HMMs == { [k |-> "HMM", init |-> Row2(i), mat |-> << Row2(p), Row2(q) >>, out |-> << Row2(r), Row2(s) >>, alpha |-> << "a","b" >>]
          : i \in {Hf,ROne}, p \in Ps, q \in {RFrac(1,4),Hf}, r \in Ps, s \in {RFrac(1,3)} }
MCs == { [k |-> "MC", init |-> Row2(i) \o << RZero >>, lab |-> << "a",l,"b" >>,
          mat |-> << << p,RSub(ROne,p),RZero >>, << RFrac(1,4),RFrac(1,4),Hf >>, << RZero,q,RSub(ROne,q) >> >>]
          : i \in {Hf,ROne}, l \in Letters, p \in Ps, q \in Ps }
MDPs == { [k |-> "MDP", init |-> << ROne,RZero >>, lab |-> << "a",l >>, acts |-> << "x","y" >>,
           mat |-> << << Row2(p), Row2(q) >>, << Row2(RFrac(1,3)), << RZero,RZero >> >> >>]
          : l \in Letters, p \in Ps, q \in Ps }
CTMCs == { [k |-> "CTMC", init |-> << ROne,RZero >>, lab |-> << "a",l >>,
           mat |-> << << a,b >>, << c,RZero >> >>]
          : l \in Letters, a \in {RZero,ROne}, b \in {Hf,ROf(3)}, c \in {ROne,RZero} }
Models == CASE KIND = "HMM" -> HMMs [] KIND = "MC" -> MCs [] KIND = "MDP" -> MDPs [] KIND \in {"CTMC","CTMCU"} -> CTMCs
MdpWords == { << w[1],x,w[2] >> : w \in [1..2 -> Letters], x \in Acts }
            \cup { << w[1],x,w[2],y,w[3] >> : w \in [1..3 -> Letters], x \in Acts, y \in Acts }
TimedWords == { << w[1],d,w[2] >> : w \in [1..2 -> Letters], d \in {Hf,ROf(2)} }
              \cup { << w[1],d,w[2],e,w[3] >> : w \in [1..3 -> Letters], d \in {Hf}, e \in {Hf,ROf(2)} }
W == CASE KIND = "MDP" -> MdpWords [] KIND = "CTMC" -> TimedWords [] OTHER -> Words
Timed == KIND = "CTMC"
NoFix == << << FALSE,FALSE >>, << FALSE,FALSE >> >>
Sets == { << [tr |-> w, n |-> n] >> : w \in W, n \in {1} }
        \cup (IF PAIRS THEN { << [tr |-> w, n |-> 2], [tr |-> v, n |-> 1] >> : w \in W, v \in {CHOOSE z \in W : TRUE} \cup {z \in W : Len(z) = 3} }
              ELSE {})
Like(m) == LET ps == Probs(m,ms,Timed) IN ps
Possible(m) == \A i \in 1..Len(ms) : Like(m)[i][1] # 0
Init == /\ h \in Models /\ ms \in Sets /\ prev = h /\ it = 0
        /\ \A i \in 1..Len(ms) : Prob(TrellisFor(h,ms[i].tr,Timed))[1] # 0
Next == /\ it < DEPTH /\ it' = it+1 /\ prev' = h /\ ms' = ms
        /\ h' = EMStep(h,ms,Timed,NoFix)
Spec == Init /\ [][Next]_vars

RowOKx(r) == LET s == RSum(r) IN s = ROne \/ s[1] = 0
Rows(m) == CASE m.k = "MDP" -> UNION {{m.mat[s][a] : a \in 1..2} : s \in 1..N(m)}
             [] m.k = "HMM" -> {m.mat[s] : s \in 1..N(m)} \cup {m.out[s] : s \in 1..N(m)} \cup {m.init}
             [] m.k = "MC" -> {m.mat[s] : s \in 1..N(m)}
             [] OTHER -> {}
WellFormed == \A r \in Rows(h) : RowOKx(r) /\ \A i \in 1..Len(r) : r[i][1] >= 0
\* exact for the probabilistic classes, up to the accuracy of Exp for CTMCs.
\* (CTMCU: untimed learning of jump probabilities; traces that end in an absorbing state keep it)
LL(m) == FoldLeft(LAMBDA a,i : RMul(a, RPow(Like(m)[i],ms[i].n)), ROne, [i \in 1..Len(ms) |-> i])
Monotone == it = 0 \/ KIND = "CTMCU" \/
            IF KIND = "CTMC" THEN RLe(RMul(LL(prev),RSub(ROne,RFrac(1,1000000000))), LL(h)) ELSE RLe(LL(prev), LL(h))
ZerosStay == h.k = "MDP" \/ \A s \in 1..N(h) : \A u \in 1..N(h) : prev.mat[s][u][1] = 0 => h.mat[s][u][1] = 0
=============================================================================
