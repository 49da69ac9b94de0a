------------------------------ MODULE TraceSet ------------------------------
(* A jajapy Set is a bag of traces of one kind.  Concrete representation:     *)
(* ms = << [key, n], .. >> in insertion order; abstraction: BagOf(ms).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keys(ms) == { ms[i].key : i \in 1..Len(ms) }
RECURSIVE CountIn(_,_,_)
CountIn(ms,k,i) == IF i = 0 THEN 0 ELSE (IF ms[i].key = k THEN ms[i].n ELSE 0) + CountIn(ms,k,i-1)
BagOf(ms) == [k \in Keys(ms) |-> CountIn(ms,k,Len(ms))]
Get(b,k) == IF k \in DOMAIN b THEN b[k] ELSE 0
BagSum(a,b) == [k \in DOMAIN a \cup DOMAIN b |-> Get(a,k) + Get(b,k)]
\* bag of a list of traces
RECURSIVE Occ(_,_,_)
Occ(lst,k,i) == IF i = 0 THEN 0 ELSE (IF lst[i] = k THEN 1 ELSE 0) + Occ(lst,k,i-1)
BagOfList(lst) == [k \in { lst[i] : i \in 1..Len(lst) } |-> Occ(lst,k,Len(lst))]
\* representation invariant: each distinct trace once, with a positive multiplicity
RepOK(ms) == /\ Cardinality(Keys(ms)) = Len(ms)
             /\ \A i \in 1..Len(ms) : ms[i].n >= 1

\* operations on the representation, as documented
RECURSIVE Group(_,_,_)
Group(lst,i,acc) ==
  IF i > Len(lst) THEN acc
  ELSE LET hit == { j \in 1..Len(acc) : acc[j].key = lst[i] }
       IN Group(lst, i+1, IF hit = {} THEN Append(acc, [key |-> lst[i], n |-> 1])
                          ELSE LET j == CHOOSE j \in hit : TRUE IN [acc EXCEPT ![j].n = @ + 1])
FromList(lst) == Group(lst,1,<< >>)
RECURSIVE MergeAt(_,_,_)
MergeAt(ms,other,i) ==
  IF i > Len(other) THEN ms
  ELSE LET hit == { j \in 1..Len(ms) : ms[j].key = other[i].key }
       IN MergeAt(IF hit = {} THEN Append(ms, other[i])
                  ELSE LET j == CHOOSE j \in hit : TRUE IN [ms EXCEPT ![j].n = @ + other[i].n], other, i+1)
Merge(ms,other) == MergeAt(ms,other,1)
Same(a,b) == a.t = b.t /\ BagOf(a.ms) = BagOf(b.ms)
=============================================================================
