------------------------------ MODULE MC_Active -----------------------------
(* Design model of active learning: every sample the system can produce, every *)
(* learning rate; and every sequence of answers of the active scheduler to a   *)
(* system that refuses unavailable actions.                                    *)
EXTENDS Active
CONSTANTS NIT, LENGTHS
VARIABLES h, total, it, lr, prev, drawn, \* learner
          run, b, cnt, ref, pend         \* the run being drawn: trace so far, belief, counts, refused actions, pending action
vars == << h, total, it, lr, prev, drawn, run, b, cnt, ref, pend >>
L_q == << 2,1 >>
L_t == << 2,3,2 >>
Hf == RFrac(1,2)
Z == RZero
\* system: init -> {a,b}; in state 2 action y is not available
SUL == [k |-> "MDP", init |-> << Z,Z,ROne >>, lab |-> << "a","b","init" >>, acts |-> << "x","y" >>,
        mat |-> << << << Hf,Hf,Z >>, << Z,ROne,Z >> >>, << << ROne,Z,Z >>, << Z,Z,Z >> >>, << << Hf,Hf,Z >>, << Hf,Hf,Z >> >> >>]
Row(p) == << p, RSub(ROne,p), Z >>
HYPS == { [SUL EXCEPT !.mat = << << Row(p), Row(q) >>, << Row(RFrac(1,4)), IF q = Hf THEN << Z,Z,Z >> ELSE Row(Hf) >>, << Row(Hf), Row(RFrac(3,4)) >> >>]
          : p \in {Hf,RFrac(1,4)}, q \in {Hf,RFrac(1,3)} }
LRS == { [kind |-> "zero", v |-> Z], [kind |-> "num", v |-> RFrac(1,3)], [kind |-> "dynamic", v |-> Z] }
FIRST == << [tr |-> << "init","x","a","x","b" >>, n |-> 2], [tr |-> << "init","y","a","y","b" >>, n |-> 1] >>
NoRun == << >>
Init == /\ \E h0 \in HYPS : h = FitK(h0,FIRST,1) /\ prev = h0
        /\ total = FIRST /\ it = 0 /\ lr \in LRS /\ drawn = << >>
        /\ run = NoRun /\ b = << >> /\ cnt = << >> /\ ref = {} /\ pend = 0
Start == /\ it < NIT /\ run = NoRun
         /\ run' = << 3 >>                            \* states of the system, actions at even places
         /\ b' = h.init /\ cnt' = UseCounts(h,total) /\ ref' = {} /\ pend' = 0
         /\ UNCHANGED << h, total, it, lr, prev, drawn >>
Steps_ == Len(run) \div 2
LenNow == LENGTHS[it+1]
Ask == /\ run # NoRun /\ pend = 0 /\ Steps_ < LenNow
       /\ \E a \in 1..2 : /\ ChoiceP(h,cnt,b,ref)[a][1] > 0
                          /\ IF RSum(SUL.mat[run[Len(run)]][a])[1] # 0 THEN pend' = a /\ ref' = ref ELSE ref' = ref \cup {a} /\ pend' = 0
       /\ UNCHANGED << h, total, it, lr, prev, drawn, run, b, cnt >>
Move == /\ pend # 0
        /\ \E u \in 1..3 : SUL.mat[run[Len(run)]][pend][u][1] # 0 /\ run' = run \o << pend, u >>
        /\ cnt' = Counted(h,cnt,b,pend) /\ b' = Told(h,b,pend,SUL.lab[run[Len(run)]]) /\ ref' = {} /\ pend' = 0
        /\ UNCHANGED << h, total, it, lr, prev, drawn >>
TraceOf(r) == [i \in 1..Len(r) |-> IF i % 2 = 1 THEN SUL.lab[r[i]] ELSE SUL.acts[r[i]]]
LearnStep == /\ run # NoRun /\ pend = 0 /\ Steps_ = LenNow
             /\ LET s == << [tr |-> TraceOf(run), n |-> 1] >>
                    tot == AddAll(total,s) IN
                /\ total' = tot /\ prev' = h /\ drawn' = Append(drawn,s[1].tr)
                /\ h' = (IF CanLearn(h,LearnsFrom(s,tot,lr)) THEN Learn(h,s,tot,lr,1) ELSE h)
             /\ it' = it + 1 /\ run' = NoRun /\ b' = << >> /\ cnt' = << >> /\ ref' = {} /\ UNCHANGED << lr, pend >>
Next == Start \/ Ask \/ Move \/ LearnStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* --- properties
Near1(r) == LET s == RSum(r) IN s[1] = 0 \/ Close(s,ROne)
WellFormed == \A s \in 1..3 : \A a \in 1..2 : Near1(h.mat[s][a]) /\ \A u \in 1..3 : h.mat[s][a][u][1] >= 0
Frame == h.lab = SUL.lab /\ h.acts = SUL.acts /\ h.init = SUL.init
\* nothing is lost, and every sampled trace is a run of the system
Nothing_lost == total = AddAll(FIRST, [i \in 1..Len(drawn) |-> [tr |-> drawn[i], n |-> 1]]) /\ Len(drawn) = it
Sampled == \A i \in 1..Len(drawn) : Prob(TrellisOf(SUL,drawn[i]))[1] > 0 /\ Len(drawn[i]) = 2*LENGTHS[i]+1
\* refitting on everything never makes it less likely; a blend never loses support of the old hypothesis
LLof(m,ms) == LET ps == TLCEval(Probs(m,ms,FALSE)) IN FoldLeft(LAMBDA x,i : IF ps[i][1] = 0 THEN x ELSE RMul(x,RPow(ps[i],ms[i].n)), ROne, [i \in 1..Len(ms) |-> i])
Refit == (it > 0 /\ run = NoRun /\ lr.kind = "zero" /\ \A i \in 1..Len(total) : Prob(TrellisOf(prev,total[i].tr))[1] # 0)
         => RLe(LLof(prev,total), RAdd(LLof(h,total),RFrac(1,1000000000)))
Blended == (it > 0 /\ lr.kind # "zero") => \A s \in 1..3 : \A a \in 1..2 : \A u \in 1..3 : prev.mat[s][a][u][1] # 0 => h.mat[s][a][u][1] # 0
\* the scheduler always has an answer, its answers are a distribution, refused actions are not repeated
Distribution == (run # NoRun /\ Cardinality(ref) < 2) =>
   LET p == ChoiceP(h,cnt,b,ref) IN Close(RSum(p),ROne) /\ \A a \in 1..2 : p[a][1] >= 0 /\ (a \in ref => p[a][1] = 0)
Answers == Cardinality(ref) < 2
Terminates == <>(it = NIT)
=============================================================================
