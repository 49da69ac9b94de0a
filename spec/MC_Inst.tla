------------------------------- MODULE MC_Inst ------------------------------
(* Design model: every history of instantiation requests on small families    *)
(* of rate expressions.  Complete histories are replayed on the real code.    *)
EXTENDS Inst, Json
CONSTANT DEPTH
VARIABLES fam, env, hist
vars == << fam, env, hist >>
Nm(x) == [t |-> "num", n |-> "", v |-> x, a |-> << >>]
Sy(p) == [t |-> "sym", n |-> p, v |-> RZero, a |-> << >>]
Op(t,a) == [t |-> t, n |-> "", v |-> RZero, a |-> a]
Minus(a,b) == Op("add", << a, Op("mul", << Nm(ROf(-1)), b >>) >>)
Fams == << { Sy("p"), Sy("q") }, { Minus(Sy("p"),Sy("q")), Sy("q") },
           { Op("mul", << Sy("p"),Sy("q") >>), Nm(ROne) },
           { Op("add", << Sy("p"),Sy("q") >>), Minus(Nm(ROf(2)),Sy("p")) } >>
Names == {"p","q"}
Vals == { ROf(-1), RHalf, ROf(2), RZero }
Reqs == { << [p |-> a, v |-> x] >> : a \in {"p","q","z"}, x \in Vals }
        \cup { << [p |-> "p", v |-> x], [p |-> b, v |-> y] >> : b \in {"q","z","p"}, x \in Vals \ {RZero}, y \in Vals }
Init == fam \in 1..Len(Fams) /\ env = [x \in {} |-> RZero] /\ hist = << >>
Next == /\ Len(hist) < DEPTH
        /\ \E pv \in Reqs : /\ env' = Instantiate(Fams[fam],Names,env,pv)
                            /\ hist' = Append(hist, [pv |-> pv, ok |-> Valid(Fams[fam],Names,env,pv)])
        /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars
\* whatever the history, no defined rate is negative and only known parameters are set
Sound == RatesOK(Fams[fam],env) /\ DOMAIN env \subseteq Names
\* the valuation is that of the accepted requests alone
RECURSIVE Replay(_)
Replay(k) == IF k = 0 THEN [x \in {} |-> RZero] ELSE IF hist[k].ok THEN Apply(Replay(k-1),hist[k].pv) ELSE Replay(k-1)
Atomic == env = Replay(Len(hist))
Emit == Len(hist) < DEPTH \/ PrintT("GEN " \o ToJson([fam |-> fam, hist |-> hist]))
=============================================================================
