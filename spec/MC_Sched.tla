------------------------------ MODULE MC_Sched ------------------------------
(* Design model: every two-state finite-memory scheduler over a partial       *)
(* table, every history of observations and resets.                           *)
EXTENDS Sched, Json
CONSTANT DEPTH
VARIABLES f, mem, seen, hist
vars == << f, mem, seen, hist >>
Act(p) == [p |-> << RFrac(p,4), RFrac(4-p,4) >>, a |-> << "x","y" >>]
Maps == { << a,b >> : a \in {0,1}, b \in {0,1} }
Fms == { [acts |-> << Act(1), Act(4) >>, tr |-> t] : t \in { << [o |-> "a", d |-> d] >> : d \in Maps }
           \cup { << [o |-> "a", d |-> d], [o |-> "b", d |-> e] >> : d \in Maps, e \in Maps } }
Init == f \in Fms /\ mem = 0 /\ seen = << >> /\ hist = << >>
Obs(o) == mem' = Move(f,mem,o) /\ seen' = Append(seen,o) /\ hist' = Append(hist,[op |-> "obs", o |-> o])
Reset == mem' = 0 /\ seen' = << >> /\ hist' = Append(hist,[op |-> "reset", o |-> ""])
Next == Len(hist) < DEPTH /\ UNCHANGED f /\ (Reset \/ \E o \in {"a","b","zz"} : Obs(o))
Spec == Init /\ [][Next]_vars
\* memory is a function of the observations since the last reset
Memory == mem = MemAfter(f,seen) /\ MemSeq(f,seen)[Len(seen)+1] = mem /\ MemSeq(f,seen)[1] = 0
OneDist == RSum(f.acts[mem+1].p) = ROne
Emit == Len(hist) < DEPTH \/ PrintT("GEN " \o ToJson([tr |-> f.tr, hist |-> hist]))
=============================================================================
