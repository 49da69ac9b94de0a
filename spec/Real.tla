-------------------------------- MODULE Real --------------------------------
(* Real functions on rationals of Rat.tla, as truncated rational results.     *)
(* PREC groups of 4 decimal digits are kept (absolute error below 10^-44).    *)
EXTENDS Rat, SequencesExt, TLC

PREC == 12
Tr(x) == RTrunc(x, PREC)

\* (not-a-number and infinities logged from the code)
IsFin(x) == x[1] \in {-1,0,1}
IsNaN(x) == x[1] = 2
IsPosInf(x) == x[1] = 3

RHalf == RFrac(1,2)

\* 2^k as rational, k integer
Pow2(k) == IF k >= 0 THEN RPow(ROf(2),k) ELSE RInv(RPow(ROf(2),-k))

-----------------------------------------------------------------------------
\* exp: halve the argument until <= 1/2, Taylor, square back
RECURSIVE Halvings(_,_)
Halvings(x,k) == IF RLe(x, RHalf) THEN k ELSE Halvings(TLCEval(RMul(x,RHalf)), k+1)

ExpTaylor(y) ==   \* 0 <= y <= 1/2, 26 terms
  LET step(acc,i) == LET t == Tr(RDiv(RMul(acc[1],y), ROf(i)))
                     IN << t, RAdd(acc[2],t) >>
  IN FoldLeft(step, << ROne, ROne >>, [i \in 1..26 |-> i])[2]

ExpPos(x) == LET k == Halvings(x,0)
                 b == ExpTaylor(Tr(RMul(x, Pow2(-k))))
             IN FoldLeft(LAMBDA a,i : Tr(RMul(a,a)), b, [i \in 1..k |-> i])
Exp(x) == IF x[1] = 0 THEN ROne
          ELSE IF x[1] > 0 THEN ExpPos(x)
          ELSE IF RLt(x, ROf(-745)) THEN RZero      \* below the smallest float
          ELSE RTrunc(RInv(ExpPos(RNeg(x))), IF RLe(RNeg(x),ROf(200)) THEN 50 ELSE 95)

-----------------------------------------------------------------------------
\* 2*artanh(y) = ln((1+y)/(1-y)), |y| <= 1/3
Artanh2(y, n) ==
  LET y2 == Tr(RMul(y,y))
      step(acc,i) == LET t == Tr(RMul(acc[1],y2))
                     IN << t, RAdd(acc[2], Tr(RDiv(t, ROf(2*i+1)))) >>
  IN RMul(ROf(2), FoldLeft(step, << y, y >>, [i \in 1..n |-> i])[2])
Ln2 == Artanh2(RFrac(1,3), 48)
\* x = m * 2^k with 2/3 <= m < 4/3
RECURSIVE LnScale(_,_)
LnScale(x,k) == IF RLt(x, RFrac(2,3)) THEN LnScale(TLCEval(RMul(x,ROf(2))), k-1)
                ELSE IF RLe(RFrac(4,3), x) THEN LnScale(TLCEval(RMul(x,RHalf)), k+1)
                ELSE << x, k >>
\* natural logarithm of x > 0
LnBig(x) ==
         LET mk == LnScale(RTrunc(x,40),0)
         IN Tr(RAdd(RMul(ROf(mk[2]), Ln2), Artanh2(Tr(RDiv(RSub(mk[1],ROne), RAdd(mk[1],ROne))), 18)))
Ln(x) == IF RLt(x, RFrac(1,1000)) THEN RNeg(LnBig(RInv(x))) ELSE LnBig(x)
\* probabilities and densities this small may underflow in the code: out of scope
TooSmall(p) == p[1] = 1 /\ RLt(p, RInv(RPow(ROf(10),280)))

-----------------------------------------------------------------------------
\* square root of x >= 0 (Newton from a power of two above)
RECURSIVE SqrtStart(_,_)
SqrtStart(x,g) == IF RLe(x, RMul(g,g)) THEN g ELSE SqrtStart(x, TLCEval(RMul(g,ROf(2))))
RECURSIVE SqrtDown(_,_)
SqrtDown(x,g) == IF RLt(RMul(RMul(g,g),RFrac(1,16)), x) THEN g ELSE SqrtDown(x, TLCEval(RMul(g,RFrac(1,4))))
Sqrt(x) == IF x[1] = 0 THEN x
           ELSE LET g0 == SqrtDown(x, SqrtStart(x, ROne))
                IN FoldLeft(LAMBDA g,i : RTrunc(RMul(RHalf, RAdd(g, RDiv(x,g))), PREC+8),
                            g0, [i \in 1..9 |-> i])

PiR == RDiv(<< 1, << 1058,9375,6939,1971,2884,7950,3832,2643,3846,7932,3589,9265,1415,3 >>, << 1 >> >>, << 1, NScale(13), << 1 >> >>)

\* Gaussian density; a non-positive deviation is the point mass at mu
SqrtTwoPi == Sqrt(RMul(ROf(2),PiR))
NormalPdf(x, mu, sd) ==
  IF sd[1] <= 0 THEN (IF x = mu THEN ROne ELSE RZero)
  ELSE LET z == RTrunc(RDiv(RSub(x,mu),sd), PREC+4)
       IN RTrunc(RDiv(Exp(RNeg(RMul(RHalf,RMul(z,z)))), RMul(sd,SqrtTwoPi)), 50)

-----------------------------------------------------------------------------
\* closeness of a logged float to an exact value: |c-x| <= tol*(floor+|x|)
TOL == RFrac(1,100000000)
CloseT(c,x,tol,floor) == IsFin(c) /\ RLe(RAbs(RSub(c,x)), RMul(tol, RAdd(floor, RAbs(x))))
Close(c,x) == CloseT(c, x, TOL, ROne)
CloseRel(c,x) == CloseT(c, x, TOL, RFrac(1,1000000))
CloseSeq(c,x) == Len(c) = Len(x) /\ \A i \in 1..Len(x) : Close(c[i],x[i])
CloseMat(c,x) == Len(c) = Len(x) /\ \A i \in 1..Len(x) : CloseSeq(c[i],x[i])
CloseMat3(c,x) == Len(c) = Len(x) /\ \A i \in 1..Len(x) : CloseMat(c[i],x[i])
\* sums of non-negative numbers: relative accuracy
CloseRelSeq(c,x) == Len(c) = Len(x) /\ \A i \in 1..Len(x) : CloseRel(c[i],x[i])
CloseRelMat(c,x) == Len(c) = Len(x) /\ \A i \in 1..Len(x) : CloseRelSeq(c[i],x[i])
CloseRelMat3(c,x) == Len(c) = Len(x) /\ \A i \in 1..Len(x) : CloseRelMat(c[i],x[i])
RSame(a,b) == a = b          \* canonical representation
=============================================================================
