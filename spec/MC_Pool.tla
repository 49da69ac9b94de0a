------------------------------- MODULE MC_Pool -------------------------------
(* Design model of the fan-out of Baum-Welch and loglikelihood tasks over a   *)
(* pool of workers.  Tasks (one per distinct trace) are submitted in order,   *)
(* taken and finished by workers in any order; the collector waits for every  *)
(* result in submission order, drops the results of impossible traces (FALSE) *)
(* and combines the rest by a weighted sum.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, NTASKS
VARIABLES next, running, result, order, collected, pc
vars == << next, running, result, order, collected, pc >>
Workers == 1..W
\* what a worker computes for task i: "impossible" or << value, weight >>
Value(i) == IF i % 3 = 2 THEN << "impossible" >> ELSE << "value", 10*i + i*i, i >>
None == << "none" >>
Init == /\ next = 1 /\ running = [w \in Workers |-> 0] /\ result = [i \in 1..NTASKS |-> None]
        /\ order = << >> /\ collected = << >> /\ pc = "collect"
Take(w) == /\ running[w] = 0 /\ next <= NTASKS
           /\ running' = [running EXCEPT ![w] = next] /\ next' = next + 1
           /\ UNCHANGED << result, order, collected, pc >>
Finish(w) == /\ running[w] # 0
             /\ result' = [result EXCEPT ![running[w]] = Value(running[w])]
             /\ order' = Append(order, running[w]) /\ running' = [running EXCEPT ![w] = 0]
             /\ UNCHANGED << next, collected, pc >>
\* the collector blocks on the results in submission order
Collect == /\ pc = "collect" /\ Len(collected) < NTASKS /\ result[Len(collected)+1] # None
           /\ collected' = Append(collected, result[Len(collected)+1])
           /\ pc' = IF Len(collected) + 1 = NTASKS THEN "done" ELSE pc
           /\ UNCHANGED << next, running, result, order >>
Next == (\E w \in Workers : Take(w) \/ Finish(w)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Valid(s) == SelectSeq(s, LAMBDA r : r[1] = "value")
Sequential == Valid([i \in 1..NTASKS |-> Value(i)])
RECURSIVE Sum(_,_)
Sum(s,i) == IF i = 0 THEN 0 ELSE s[i][2]*s[i][3] + Sum(s,i-1)
SameAsSequential == pc = "done" => Valid(collected) = Sequential
\* even collecting in completion order gives the same combination
AnyOrder == pc = "done" => LET byDone == Valid([i \in 1..NTASKS |-> result[order[i]]])
                           IN Sum(byDone,Len(byDone)) = Sum(Sequential,Len(Sequential))
EachOnce == Cardinality({order[i] : i \in 1..Len(order)}) = Len(order)
Terminates == <>(pc = "done")
\* completion orders are printed as behaviours for the replay
Emit == pc # "done" \/ PrintT("GEN " \o ToJson(order))
=============================================================================
