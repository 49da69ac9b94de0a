------------------------------- MODULE MC_Set -------------------------------
(* Design model: all histories of Set operations on two registers up to a     *)
(* depth; the representation always refines the bag of traces put in.         *)
(* Complete histories are printed as behaviours to replay on the real code.   *)
EXTENDS TraceSet, Json
CONSTANTS DEPTH, LISTS
VARIABLES reg, ghost, hist
vars == << reg, ghost, hist >>
R == {1,2}
Lists == IF LISTS = 3 THEN { << >>, << "p" >>, << "q","p","q" >> }
         ELSE { << >>, << "p" >>, << "p","q" >>, << "q","p","q","r" >> }
Init == \E a,b \in Lists :
          /\ reg = << FromList(a), FromList(b) >>
          /\ ghost = << BagOfList(a), BagOfList(b) >>
          /\ hist = << [op |-> "new", r |-> 1, s |-> 0, lst |-> a], [op |-> "new", r |-> 2, s |-> 0, lst |-> b] >>
Act(h) == hist' = Append(hist,h)
New(r,a) == /\ reg' = [reg EXCEPT ![r] = FromList(a)] /\ ghost' = [ghost EXCEPT ![r] = BagOfList(a)]
            /\ Act([op |-> "new", r |-> r, s |-> 0, lst |-> a])
Add(r,s) == /\ reg' = [reg EXCEPT ![r] = Merge(reg[r],reg[s])]
            /\ ghost' = [ghost EXCEPT ![r] = BagSum(ghost[r],ghost[s])]
            /\ Act([op |-> "add", r |-> r, s |-> s, lst |-> << >>])
Copy(r,s) == /\ r # s /\ reg' = [reg EXCEPT ![r] = reg[s]] /\ ghost' = [ghost EXCEPT ![r] = ghost[s]]
             /\ Act([op |-> "copy", r |-> r, s |-> s, lst |-> << >>])
Sort(r) == UNCHANGED << reg,ghost >> /\ Act([op |-> "sort", r |-> r, s |-> 0, lst |-> << >>])
Reload(r) == UNCHANGED << reg,ghost >> /\ Act([op |-> "reload", r |-> r, s |-> 0, lst |-> << >>])
List(r) == UNCHANGED << reg,ghost >> /\ Act([op |-> "relist", r |-> r, s |-> 0, lst |-> << >>])
Next == Len(hist) < DEPTH + 2 /\ \E r \in R :
           \/ \E s \in R : Add(r,s) \/ Copy(r,s)
           \/ Sort(r) \/ Reload(r) \/ List(r)
           \/ (r = 1 /\ \E a \in Lists : New(r,a))
Spec == Init /\ [][Next]_vars
Refines == \A r \in R : RepOK(reg[r]) /\ BagOf(reg[r]) = ghost[r]
Emit == Len(hist) < DEPTH + 2 \/ PrintT("GEN " \o ToJson(hist))
=============================================================================
