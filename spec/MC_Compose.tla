------------------------------ MODULE MC_Compose ------------------------------
(* Design model: composing the components one after the other (an intermediate *)
(* result keeps the joint transitions as actions) gives the n-ary product, for *)
(* every choice of small components, and no      *)
(* action known by some component is forgotten on the way.                     *)
EXTENDS Compose, TLC, Json
CONSTANTS Rates, MaxSync, Comps
K == 1
V(x) == << ROf(x) >>
Syncs == UNION { [1..m -> { [s |-> s, a |-> a, d |-> d, r |-> V(r)] : s \in 1..2, a \in {"a","b"}, d \in 1..2, r \in {2} }] : m \in 0..MaxSync }
Components == { [ n |-> 2, lab |-> <<"x","y">>, ini |-> << V(1), V(0) >>, loc |-> << << V(0), V(r1) >>, << V(r2), V(r3) >> >>, sync |-> sy ] :
                r1 \in Rates, r2 \in Rates, r3 \in {0,3}, sy \in Syncs }
VARIABLES picked, acc
vars == << picked, acc >>
Init == picked = << >> /\ acc = << >>
Next == \E c \in Components : /\ Len(picked) < Comps
                              /\ picked' = Append(picked,c)
                              /\ acc' = IF acc = << >> THEN << c >> ELSE << Pair(K,acc[1],c) >>
Spec == Init /\ [][Next]_vars
Remembered == acc # << >> => Acts(acc[1]) = UNION { Acts(picked[i]) : i \in 1..Len(picked) }
Equal == Len(picked) >= 2 => Finish(K,acc[1]) = Product(K,picked)
N0(v) == IF v[1][1] = 0 THEN 0 ELSE RFloor(v[1])
Emit == Len(picked) < Comps \/ PrintT("GEN " \o ToJson([i \in 1..Comps |->
   [ loc |-> [s \in 1..2 |-> [t \in 1..2 |-> N0(picked[i].loc[s][t])]],
     sync |-> [j \in 1..Len(picked[i].sync) |-> [s |-> picked[i].sync[j].s, a |-> picked[i].sync[j].a, d |-> picked[i].sync[j].d, r |-> N0(picked[i].sync[j].r)]] ]]))
=============================================================================
