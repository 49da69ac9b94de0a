-------------------------------- MODULE Freq --------------------------------
(* Frequencies: how far an observed frequency over N independent runs may be  *)
(* from the probability p of the event (Bernstein's inequality; probability   *)
(* of exceeding the margin: 2 exp(-24) < 10^-10), and the Gaussian cdf.       *)
EXTENDS Models
LL == ROf(24)
Margin(p,n) == LET a == RDiv(LL,ROf(3*n))
                   v == RTrunc(RMul(ROf(2),RDiv(RMul(LL,RMul(p,RSub(ROne,p))),ROf(n))),10)
               IN RAdd(a, Sqrt(RAdd(RMul(a,a), v)))
\* count c out of n fits probability p
Fits(c,n,p) == RLe(RAbs(RSub(RFrac(c,n),p)), RAdd(Margin(p,n),RFrac(1,1000000)))

\* Gaussian cdf by its power series, |z| <= 6 (0/1 beyond)
Phi(z) ==
  IF RLe(ROf(6),z) THEN ROne ELSE IF RLe(z,ROf(-6)) THEN RZero ELSE
  LET z2 == Tr(RMul(z,z))
      step(acc,k) == LET t == Tr(RDiv(RMul(acc[1],z2),ROf(2*k+1))) IN << t, RAdd(acc[2],t) >>
      s == FoldLeft(step, << Tr(z), Tr(z) >>, [k \in 1..90 |-> k])[2]
  IN RAdd(RHalf, Tr(RDiv(RMul(Exp(RNeg(RMul(RHalf,z2))), s), SqrtTwoPi)))
GaussBelow(t,mu,sd) == IF sd[1] <= 0 THEN Ind(RLe(mu,t)) ELSE Phi(RTrunc(RDiv(RSub(t,mu),sd),8))
\* P(dwell in s <= t)
DwellBelow(e,t) == IF t[1] <= 0 THEN RZero ELSE RSub(ROne, Exp(RNeg(RMin(RMul(e,t),ROf(60)))))
=============================================================================
