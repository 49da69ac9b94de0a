------------------------------- MODULE MC_Fit -------------------------------
(* Design model of the Baum-Welch main loop.  An iteration evaluates the      *)
(* likelihood of the current hypothesis and replaces it; likelihood gains are *)
(* chosen by the environment (they are never negative).                        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MAXIT, EPS, GAINS
VARIABLES hyp,     \* number of updates applied to the hypothesis
          ll,      \* ll[i]: likelihood of the hypothesis that entered iteration i
          cur, counter, pc, file
vars == << hyp, ll, cur, counter, pc, file >>
Init == hyp = 0 /\ ll = << >> /\ cur = 0 /\ counter = 0 /\ pc = "loop" /\ file = -1
Stop(prevs, c) == Len(prevs) > 0 /\ c - prevs[Len(prevs)] < EPS
Iterate == /\ pc = "loop" /\ counter < MAXIT
           /\ ll' = Append(ll, cur) /\ hyp' = hyp + 1 /\ counter' = counter + 1
           /\ \E g \in GAINS : cur' = cur + g
           /\ pc' = IF Stop(ll, cur) \/ counter + 1 = MAXIT THEN "save" ELSE "loop"
           /\ UNCHANGED file
Save == pc = "save" /\ file' = hyp /\ pc' = "done" /\ UNCHANGED << hyp, ll, cur, counter >>
Next == Iterate \/ Save
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RoundsAreUpdates == counter = hyp /\ counter = Len(ll)
StopsExactly == pc # "loop" => /\ counter <= MAXIT
                               /\ (counter < MAXIT => ll[counter] - ll[counter-1] < EPS)
                               /\ \A i \in 2..(counter-1) : ll[i] - ll[i-1] >= EPS
FileIsFinal == pc = "done" => file = hyp
AlwaysDone == <>(pc = "done")
=============================================================================
