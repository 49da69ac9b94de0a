------------------------------- MODULE MC_Build ------------------------------
(* Design model: a user lists the transitions of a model one after the other.   *)
(* Whatever the history, the model is determined: only the last entry for a     *)
(* transition counts, their order does not matter otherwise, only the order of  *)
(* the state ids matters, and an accepted specification has stochastic rows.    *)
(* Complete specifications are replayed on the real constructors.               *)
EXTENDS Build, TLC, Json
CONSTANTS KIND, MAXT, IDS, PS
VARIABLES trans, fin
vars == << trans, fin >>
Acts == IF KIND = "MDP" THEN {"x","y"} ELSE {""}
Init == trans = << >> /\ fin = << >>
Add == /\ Len(trans) < MAXT /\ fin = << >>
       /\ \E s,d \in IDS, a \in Acts, p \in PS : trans' = Append(trans, [s |-> s, a |-> a, d |-> d, p |-> RFrac(p,2)])
       /\ UNCHANGED fin
Labellings(n) == { [i \in 1..n |-> "a"], [i \in 1..n |-> IF i = 1 THEN "b" ELSE "a"], [i \in 1..(n-1) |-> "a"], [i \in 1..n |-> IF i = n THEN "init" ELSE "b"] }
Inits(n) == { [i |-> 0, v |-> << >>], [i |-> n-1, v |-> << >>], [i |-> -1, v |-> [j \in 1..n |-> Ind(j = n)]], [i |-> -1, v |-> [j \in 1..n |-> RFrac(1,n+1)]] }
Sp(ls,in) == [k |-> KIND, trans |-> trans, labels |-> ls, init |-> in, emis |-> << >>, out |-> << >>, sync |-> << >>]
Base == Sp(<< >>, [i |-> 0, v |-> << >>])
\* one state id can be a starting point in the code only if it is a rank: ids without gaps are used with integer starts
Dense == States(Base) = 0..(NS(Base)-1)
Finish == /\ trans # << >> /\ fin = << >>
          /\ \E ls \in Labellings(NS(Base)), in \in Inits(NS(Base)) : (in.i >= 0 => Dense) /\ fin' = << Sp(ls,in) >>
          /\ UNCHANGED trans
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
Key(t) == << t.s, t.a, t.d >>
Model(sp) == [s \in 1..NS(sp) |-> [a \in ActsOf(sp) |-> [d \in 1..NS(sp) |-> TransP(sp,s,a,d)]]]
Swap(q,i) == [j \in 1..Len(q) |-> IF j = i THEN q[i+1] ELSE IF j = i+1 THEN q[i] ELSE q[j]]
Keys == { Key(trans[i]) : i \in 1..Len(trans) }
OrderFree == \A i \in 1..(Len(trans)-1) : Key(trans[i]) # Key(trans[i+1]) => Model([Base EXCEPT !.trans = Swap(trans,i)]) = Model(Base)
LastCounts == trans # << >> => LET t == trans[Len(trans)] IN TransP(Base,Rank(Base,t.s),t.a,Rank(Base,t.d)) = t.p
Spread == [Base EXCEPT !.trans = [i \in 1..Len(trans) |-> [trans[i] EXCEPT !.s = 3*@+1, !.d = 3*@+1]]]
NamesOfIds == Model(Spread) = Model(Base)
Ranks == { Rank(Base,x) : x \in States(Base) } = 1..NS(Base)
Nothing == \A s \in 1..NS(Base), d \in 1..NS(Base), a \in ActsOf(Base) : (\A k \in Keys : << Rank(Base,k[1]),k[2],Rank(Base,k[3]) >> # << s,a,d >>) => TransP(Base,s,a,d) = RZero
Rejected(sp) == Reserved(sp) \/ TooFew(sp) \/ RowsBad(sp) \/ InitBad(sp)
Stochastic == fin # << >> /\ ~Rejected(fin[1]) /\ KIND # "CTMC" =>
   \A s \in 1..NS(fin[1]), a \in ActsOf(fin[1]) : LET r == RSum([d \in 1..NS(fin[1]) |-> TransP(fin[1],s,a,d)]) IN r = ROne \/ r = RZero
Twice(x) == RFloor(RMul(x,ROf(2)))
Emit == fin = << >> \/ PrintT("GEN " \o ToJson([k |-> KIND, trans |-> [i \in 1..Len(trans) |-> << trans[i].s, trans[i].a, trans[i].d, Twice(trans[i].p) >>],
   labels |-> fin[1].labels, i |-> fin[1].init.i, n |-> NS(Base), even |-> fin[1].init.i < 0 /\ fin[1].init.v[1] = fin[1].init.v[NS(Base)]]))
=============================================================================
