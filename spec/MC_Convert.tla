------------------------------ MODULE MC_Convert ------------------------------
(* Design model: a model travels between jajapy, Storm and Prism; one entry of  *)
(* its matrix may be changed on the way.  The relations of Convert accept the   *)
(* faithful conversion and nothing else.  Models are replayed on the real code. *)
EXTENDS Convert, Small, TLC, Json
CONSTANT KINDS
VARIABLES raw, m, w, st
vars == << raw, m, w, st >>
\* st: "jajapy" -> "storm" (w: a Storm model) -> "back" (w: a jajapy model); or "touched" (w: m with one number changed), "moved" (w: m renumbered)
Raws == (IF "MC" \in KINDS THEN RawMC({Nil}) ELSE {}) \cup (IF "CTMC" \in KINDS THEN RawCTMC({Nil}) ELSE {}) \cup (IF "MDP" \in KINDS THEN RawMDP({Nil}) ELSE {})
Sparse(row) == LET q == SelectSeq([t \in 1..Len(row) |-> [d |-> t-1, v |-> row[t]]], LAMBDA x : x.v[1] # 0) IN q
\* the faithful conversions
Export(x) == [ty |-> StormTy(x), lab |-> [s \in 1..N(x) |-> << x.lab[s] >>], init |-> SetToSeq({ s-1 : s \in InitStates(x) }),
   exit |-> IF x.k = "CTMC" THEN ExitRates(x) ELSE << >>,
   ch |-> [s \in 1..N(x) |-> IF x.k = "MDP" THEN [i \in 1..Cardinality(EnabledActs(x,s)) |-> LET a == SetToSortSeq(EnabledActs(x,s), <)[i] IN [n |-> << x.acts[a] >>, row |-> Sparse(x.mat[s][a])]]
                             ELSE << [n |-> << >>, row |-> Sparse(x.mat[s])] >>]]
Import(h,acts) == LET n == Len(h.lab)
   V(row) == RowVec(row,n)
   Ch(s,a) == { c \in 1..Len(h.ch[s]) : h.ch[s][c].n = << a >> } IN
   [k |-> CASE h.ty = "dtmc" -> "MC" [] h.ty = "ctmc" -> "CTMC" [] OTHER -> "MDP", name |-> "s", lab |-> [s \in 1..n |-> h.lab[s][1]], acts |-> acts,
    init |-> [s \in 1..n |-> IF \E i \in 1..Len(h.init) : h.init[i]+1 = s THEN RFrac(1,Len(h.init)) ELSE RZero],
    mat |-> [s \in 1..n |-> IF h.ty = "mdp" THEN [a \in 1..Len(acts) |-> IF Ch(s,acts[a]) = {} THEN [t \in 1..n |-> RZero] ELSE V(h.ch[s][CHOOSE c \in Ch(s,acts[a]) : TRUE].row)]
                            ELSE V(h.ch[s][1].row)]]
Renumber(x,p) == LET n == N(x) IN [x EXCEPT !.lab = [i \in 1..n |-> x.lab[p[i]]], !.init = [i \in 1..n |-> x.init[p[i]]],
   !.mat = [i \in 1..n |-> IF x.k = "MDP" THEN [a \in 1..Len(x.acts) |-> [j \in 1..n |-> x.mat[p[i]][a][p[j]]]] ELSE [j \in 1..n |-> x.mat[p[i]][p[j]]]]]
Init == raw \in Raws /\ m = Rec(raw) /\ w = << >> /\ st = "jajapy"
ToS == st = "jajapy" /\ w' = << Export(m) >> /\ st' = "storm"
Back == st = "storm" /\ w' = << Import(w[1],m.acts) >> /\ st' = "back"
Touch == st = "jajapy" /\ \E s,t \in 1..3, a \in 1..(IF m.k = "MDP" THEN 2 ELSE 1) :
            LET old == IF m.k = "MDP" THEN m.mat[s][a][t] ELSE m.mat[s][t]
                new == IF old[1] = 0 THEN RFrac(1,1000) ELSE RAdd(old,RFrac(1,1000))
            IN w' = << IF m.k = "MDP" THEN [m EXCEPT !.mat[s][a][t] = new] ELSE [m EXCEPT !.mat[s][t] = new] >> /\ st' = "touched"
Relabel == st = "jajapy" /\ \E s \in {1,2,3} : m.lab[s] # "init" /\ w' = << [m EXCEPT !.lab[s] = "zz"] >> /\ st' = "touched"
Move == st = "jajapy" /\ \E p \in { << 1,2,3 >>, << 1,3,2 >>, << 2,1,3 >>, << 2,3,1 >>, << 3,1,2 >>, << 3,2,1 >> } : w' = << Renumber(m,p) >> /\ st' = "moved"
Next == (ToS \/ Back \/ Touch \/ Relabel \/ Move) /\ UNCHANGED << raw, m >>
Spec == Init /\ [][Next]_vars
Faithful == st = "storm" => ToStorm(m,w[1]) = {} /\ FromStorm(w[1],<< >>,FALSE,m) = {}
RoundTrip == st = "back" => ObjClose(m,w[1]) /\ w[1].lab = m.lab
Sharp == st = "touched" => ToStorm(w[1],Export(m)) # {} /\ FromStorm(Export(m),<< >>,FALSE,w[1]) # {}
\* unreachable parts may go in a Prism program; the rest is kept up to the numbering
All(x) == ReachS(x,InitStates(x)) = 1..N(x)
Numbering == st = "moved" => (All(m) => Iso(m,w[1]) /\ Iso(w[1],m)) /\ (~All(m) => ~Iso(m,w[1]))
Noticed == st = "touched" /\ All(m) => ~Iso(m,w[1])
Emit == st # "jajapy" \/ PrintT("GEN " \o ToJson(raw))
=============================================================================
