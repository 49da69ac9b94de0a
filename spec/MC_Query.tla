------------------------------- MODULE MC_Query ------------------------------
(* Design model: on every small model the answers agree with each other, and   *)
(* asking changes nothing.  Every model is replayed: all questions are asked.  *)
EXTENDS Query, Small, TLC, Json
CONSTANT KINDS
VARIABLES raw, m, last
vars == << raw, m, last >>
Raws == (IF "MC" \in KINDS THEN RawMC({Nil}) ELSE {}) \cup (IF "CTMC" \in KINDS THEN RawCTMC({Nil}) ELSE {})
        \cup (IF "MDP" \in KINDS THEN RawMDP({Nil}) ELSE {}) \cup (IF "HMM" \in KINDS THEN RawHMM ELSE {})
Ops == {"tau","b","l","e","actions"}
Nothing == [q |-> "", s |-> 0, v |-> RZero]
Init == raw \in Raws /\ m = Rec(raw) /\ last = Nothing
Ask == \E q \in Ops, s \in 0..(N(m)-1) :
         /\ q \in {"l","e"} => m.k = "CTMC"
         /\ q = "actions" => m.k = "MDP"
         /\ last' = [q |-> q, s |-> s, v |-> CASE q = "e" -> ExitOf(m,s) [] q = "l" -> LOf(m,s,0,"a") [] q = "b" -> BOf(m,s,"a")
                                                [] q = "tau" -> TauOf(m,s,0,"a","x") [] OTHER -> RZero]
Next == last = Nothing /\ Ask /\ UNCHANGED << raw, m >>
Spec == Init /\ [][Next]_vars
St == 0..(N(m)-1)
Obs == IF m.k = "HMM" THEN {"a","b"} ELSE {"a","b","init"}
Some == IF m.k = "MDP" THEN {"x","y"} ELSE {""}
Total1(s,o,a) == RSum([t \in 1..N(m) |-> TauOf(m,s,t-1,o,a)])
Leaves(s,a) == CASE m.k = "MDP" -> a \in ActionsOf(m,s) [] m.k \in {"MC","CTMC"} -> RSum(m.mat[s+1])[1] # 0 [] OTHER -> TRUE
Laws == last # Nothing \/ \A s \in St :
  /\ \A o \in Obs, a \in Some : Total1(s,o,a) = IF Leaves(s,a) THEN BOf(m,s,o) ELSE RZero
  /\ m.k = "HMM" => RAdd(BOf(m,s,"a"),BOf(m,s,"b")) = ROne
  /\ m.k # "HMM" => \A o \in Obs : BOf(m,s,o) = Ind(o = m.lab[s+1])
  /\ m.k = "CTMC" => LET j == JumpMC(m) IN
        /\ ExitOf(m,s) = RSum([t \in 1..N(m) |-> LOf(m,s,t-1,m.lab[s+1])])
        /\ \A t \in St, o \in Obs : TauOf(m,s,t,o,"") = TauOf(j,s,t,o,"")
        /\ LklOf(m,s,RZero) = ExitOf(m,s)
  /\ m.k = "MDP" => \A a \in ActionsOf(m,s) : RSum([t \in 1..N(m) |-> AOf(m,s,t-1,a)]) = ROne
Bounded == last.v[1] >= 0 /\ (last.q \in {"tau","b"} => RLe(last.v,ROne))
Emit == last # Nothing \/ PrintT("GEN " \o ToJson(raw))
=============================================================================
