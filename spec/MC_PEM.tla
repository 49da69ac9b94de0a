-------------------------------- MODULE MC_PEM -------------------------------
(* Design model of the learning of parameters: for small families of rates    *)
(* (all monomials of a family have the same degree C in the free parameters)  *)
(* the update has the closed form x * (SUM aX / SUM aDr)^(1/C).               *)
(* Checked: that step satisfies the relation PStep the recorded executions    *)
(* are checked against, keeps parameters non-negative and the support of the  *)
(* rates, and never lowers the likelihood.                                    *)
EXTENDS PEM
CONSTANTS DEPTH, UPD, TIMED
VARIABLES h, fam, ms, prev, it
vars == << h, fam, ms, prev, it >>
Nm(x) == [t |-> "num", n |-> "", v |-> x, a |-> << >>]
Sy(p) == [t |-> "sym", n |-> p, v |-> RZero, a |-> << >>]
Mul(a) == [t |-> "mul", n |-> "", v |-> RZero, a |-> a]
Pw(a,k) == [t |-> "pow", n |-> "", v |-> ROf(k), a |-> << a >>]
Z == Nm(RZero)  O1 == Nm(ROne)  P == Sy("p")  Q == Sy("q")
Fams == << [C |-> 1, fixed |-> {}, e |-> << << Z,P,Z >>, << Mul(<< Nm(ROf(2)),P >>),Z,Q >>, << O1,Z,Z >> >>],
           [C |-> 2, fixed |-> {}, e |-> << << Z,Mul(<< P,Q >>),Pw(P,2) >>, << Pw(P,2),Z,Z >>, << O1,Mul(<< Nm(RFrac(1,2)),P,Q >>),Z >> >>],
           [C |-> 1, fixed |-> {}, e |-> << << Q,P,Z >>, << Z,Z,P >>, << Z,Z,Z >> >>],
           [C |-> 1, fixed |-> {"p"}, e |-> << << Z,Mul(<< P,Q >>),O1 >>, << Q,Z,P >>, << P,Z,Q >> >>] >>
Vals == { RFrac(1,2), ROf(2) }
Models == UNION { { << f, [k |-> "PCTMC", init |-> << ROne,RZero,RZero >>, lab |-> << "a",l,"b" >>, expr |-> Fams[f].e, pnames |-> << "p","q" >>,
             pidx |-> << >>, pvals |-> << [p |-> "p", v |-> x], [p |-> "q", v |-> y] >>] >> : l \in {"a","b"}, x \in Vals, y \in Vals } : f \in 1..Len(Fams) }
Lt == {"a","b"}
Words == IF TIMED THEN { << "a",d,w >> : w \in Lt, d \in Vals } \cup { << "a",d,w,RFrac(1,2),v >> : w \in Lt, v \in Lt, d \in Vals }
         ELSE { << "a",w,v >> : w \in Lt, v \in Lt } \cup { << "a",w,v,"b" >> : w \in Lt, v \in Lt }
Sets == { << [tr |-> w, n |-> 2], [tr |-> v, n |-> 1] >> : w \in Words, v \in Words }
Root(r,C) == IF C = 1 THEN r ELSE Sqrt(r)
Step(m,f,qs) ==
  LET c == Denotes(m)  X == JumpsOf(c,qs,TIMED)  D == Dwells(c,qs,TIMED)
      NV(p,x) == LET r == Rhs(m,c,D,{},p,ROne) IN
                 IF p \in Fams[f].fixed \/ r[1] = 0 THEN x ELSE RTrunc(RMul(x, Root(RDiv(Lhs(m,X,p),r),Fams[f].C)),14)
  IN TLCEval([m EXCEPT !.pvals = [i \in 1..2 |-> [p |-> m.pvals[i].p, v |-> NV(m.pvals[i].p,m.pvals[i].v)]],
       !.expr = [s \in 1..3 |-> [t \in 1..3 |-> IF UPD /\ IsConst(m.expr[s][t]) /\ c.mat[s][t][1] # 0 /\ D[s][1] # 0
                                                THEN Nm(RTrunc(RDiv(X[s][t],D[s]),14)) ELSE m.expr[s][t]]]])
QS(m) == Posts(Denotes(m),ms,TIMED)
Init == /\ \E z \in Models : fam = z[1] /\ h = z[2]
        /\ ms \in Sets /\ prev = h /\ it = 0
        /\ \A i \in 1..Len(ms) : Prob(TrellisFor(Denotes(h),ms[i].tr,TIMED))[1] # 0
Next == /\ it < DEPTH /\ it' = it+1 /\ prev' = h /\ UNCHANGED << ms, fam >>
        /\ h' = Step(h,fam,QS(h))
Spec == Init /\ [][Next]_vars
LL(m) == LET ps == Probs(Denotes(m),ms,TIMED) IN FoldLeft(LAMBDA a,i : RMul(a, RPow(ps[i],ms[i].n)), ROne, [i \in 1..Len(ms) |-> i])
Agrees == it = 0 \/ (PStep(prev,h,QS(prev),TIMED,Fams[fam].fixed,UPD) = {} /\ PFrame(prev,h))
Monotone == it = 0 \/ RLe(RMul(LL(prev),RSub(ROne,RFrac(1,1000000000))), LL(h))
Positive == \A p \in {"p","q"} : Env(h)[p][1] >= 0
=============================================================================
