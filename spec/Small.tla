-------------------------------- MODULE Small --------------------------------
(* Every small model of a family: two states and (MC, MDP, CTMC) one initial   *)
(* state first or last.  Raw models hold integers, in halves.                  *)
EXTENDS Models
Hv(x) == RFrac(x,2)
HRow(r) == [t \in 1..Len(r) |-> Hv(r[t])]
HMat(q) == [s \in 1..Len(q) |-> HRow(q[s])]
Dists == { << 2,0 >>, << 1,1 >>, << 0,2 >> }
Nil == << 0,0 >>
\* the initial state comes first (1) or last (3)
Perm(pos) == IF pos = 3 THEN << 1,2,3 >> ELSE << 3,1,2 >>
Put(pos,q) == [i \in 1..3 |-> q[Perm(pos)[i]]]
Row3(pos,r) == Put(pos, << r[1],r[2],0 >>)
RawMC(abs) == { [k |-> "MC", mat |-> Put(pos, << Row3(pos,a), Row3(pos,b), Row3(pos,i) >>), lab |-> Put(pos, << "a",l,"init" >>), acts |-> << >>, init |-> Put(pos, << 0,0,2 >>), out |-> << >>] :
                a \in Dists \cup abs, b \in Dists \cup abs, i \in Dists, l \in {"a","b"}, pos \in {1,3} }
RawCTMC(abs) == { [k |-> "CTMC", mat |-> Put(pos, << Row3(pos,a), Row3(pos,b), Row3(pos,i) >>), lab |-> Put(pos, << "a",l,"init" >>), acts |-> << >>, init |-> Put(pos, << 0,0,2 >>), out |-> << >>] :
                a \in { << x,y >> : x \in 0..2, y \in 0..2 } \ ({Nil} \ abs), b \in { << 0,1 >>, << 2,0 >>, << 1,4 >> } \cup abs, i \in { << 1,1 >>, << 0,2 >> }, l \in {"a","b"}, pos \in {1,3} }
ARows == { Nil, << 2,0 >>, << 1,1 >> }
RawMDP(abs) == { r \in { [k |-> "MDP", mat |-> Put(pos, << << Row3(pos,a), Row3(pos,b) >>, << Row3(pos,c), Row3(pos,d) >>, << Row3(pos,i), Row3(pos,j) >> >>), lab |-> Put(pos, << "a",l,"init" >>),
                   acts |-> << "y","x" >>, init |-> Put(pos, << 0,0,2 >>), out |-> << >>] :
                a \in ARows, b \in ARows, c \in ARows, d \in ARows, i \in { << 0,2 >> }, j \in { Nil, << 1,1 >> }, l \in {"a","b"}, pos \in {1,3} } :
               abs # {} \/ \A s \in 1..3 : \E x \in 1..2 : r.mat[s][x] # << 0,0,0 >> }
RawHMM == { [k |-> "HMM", mat |-> << a,b >>, lab |-> << >>, acts |-> << "b","a" >>, init |-> i, out |-> << o,p >>] : a \in Dists, b \in Dists, i \in Dists, o \in Dists, p \in Dists }
\* the record of a raw model (the alphabet of an HMM stands in acts)
Rec(w) == [k |-> w.k, name |-> "s", init |-> HRow(w.init), mat |-> IF w.k = "MDP" THEN [s \in 1..Len(w.mat) |-> HMat(w.mat[s])] ELSE HMat(w.mat),
           lab |-> w.lab, alph |-> << "a","b","init" >>, acts |-> w.acts, alpha |-> w.acts, out |-> HMat(w.out)]
=============================================================================
