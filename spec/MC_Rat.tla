------------------------------- MODULE MC_Rat -------------------------------
(* Rat.tla against machine integers, and the laws of an ordered field on      *)
(* large operands.  Runs with and without the Java override.                  *)
EXTENDS Rat, TLC
CONSTANTS BOUND, USEBIG
BIG == IF USEBIG THEN {-30000,-9999,9999,10001,12345} ELSE {}
VARIABLES x, y
RECURSIVE G(_,_)
G(a,b) == IF b = 0 THEN a ELSE G(b, a % b)
Ab(i) == IF i < 0 THEN -i ELSE i
\* naive normal form of n/d from machine integers
Nf(n,d) == IF n = 0 THEN << 0, << >>, << 1 >> >>
           ELSE LET g == G(Ab(n),d) IN << IF n < 0 THEN -1 ELSE 1, NOf(Ab(n) \div g), NOf(d \div g) >>
Small == { << n,d >> : n \in -BOUND..BOUND, d \in 1..BOUND } \cup { << n,d >> : n \in BIG, d \in {9999,10000,7} }
Init == x \in Small /\ y \in Small
Next == UNCHANGED << x,y >>
Spec == Init /\ [][Next]_<< x,y >>
a == Nf(x[1],x[2])
b == Nf(y[1],y[2])
Machine == /\ a = RFrac(x[1],x[2])
           /\ RAdd(a,b) = Nf(x[1]*y[2]+y[1]*x[2], x[2]*y[2])
           /\ RSub(a,b) = Nf(x[1]*y[2]-y[1]*x[2], x[2]*y[2])
           /\ RMul(a,b) = (IF Ab(x[1]) > 9000 /\ Ab(y[1]) > 9000 THEN RMul(b,a) ELSE Nf(x[1]*y[1], x[2]*y[2]))
           /\ RLt(a,b) = (x[1]*y[2] < y[1]*x[2])
           /\ (a[1] = b[1] => RCmp(a,b) = RSub(a,b)[1])
\* laws on products of several limbs
big(r) == RMul(RAdd(r, RFrac(1,9973)), RPow(RFrac(9871,10007), 5))
Laws == LET p == big(a) q == big(b) IN
        /\ RSub(RAdd(p,q),q) = p
        /\ RMul(p,RAdd(q,ROne)) = RAdd(RMul(p,q),p)
        /\ (q[1] # 0 => RMul(RDiv(p,q),q) = p)
        /\ RSum(<< p,q,p >>) = RAdd(RMul(ROf(2),p),q)
        /\ RDot(<< p,q >>,<< q,p >>) = RMul(ROf(2),RMul(p,q))
        /\ RLe(RAbs(RTrunc(p,2)),RAbs(p)) /\ RLt(RAbs(RSub(p,RTrunc(p,2))), RFrac(1,100000000 \div 1))
        /\ RLe(ROf(RFloor(a)),a) /\ RLt(a,ROf(RFloor(a)+1))
=============================================================================
