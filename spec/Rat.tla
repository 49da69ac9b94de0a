-------------------------------- MODULE Rat --------------------------------
(* Exact arithmetic for TLC, whose native integers are 32 bit.               *)
(*  - a natural ("limbs") is a little-endian sequence of digits in base 10^4 *)
(*    without leading zeros; zero is << >>;                                  *)
(*  - a rational is << sign, num, den >>, sign \in {-1,0,1}, num/den limbs   *)
(*    in lowest terms, den > 0; zero is << 0, << >>, <<1>> >>.               *)
(* Every operator is defined here in plain TLA+.  java/Rat.java overrides    *)
(* the marked operators by BigInteger arithmetic on the same values;         *)
(* MC_Rat.tla checks both agree (it runs with and without the override).     *)
EXTENDS Integers, Sequences

BASE == 10000

------------------------------------------------------------------------------
(* naturals *)
RECURSIVE NNorm(_)
NNorm(a) == IF a # << >> /\ a[Len(a)] = 0 THEN NNorm(SubSeq(a,1,Len(a)-1)) ELSE a

RECURSIVE NOf(_)
NOf(i) == IF i = 0 THEN << >> ELSE << i % BASE >> \o NOf(i \div BASE)

NDigit(a,i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NAddC(_,_,_,_)
NAddC(a,b,i,c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET x == NDigit(a,i) + NDigit(b,i) + c
       IN << x % BASE >> \o NAddC(a,b,i+1,x \div BASE)
NAdd(a,b) == NAddC(a,b,1,0)                                     \* overridden

RECURSIVE NSubC(_,_,_,_)
NSubC(a,b,i,c) ==                       \* a >= b
  IF i > Len(a) THEN << >>
  ELSE LET x == a[i] - NDigit(b,i) - c
       IN IF x < 0 THEN << x + BASE >> \o NSubC(a,b,i+1,1)
          ELSE << x >> \o NSubC(a,b,i+1,0)
NSub(a,b) == NNorm(NSubC(a,b,1,0))                              \* overridden

RECURSIVE NCmpAt(_,_,_)
NCmpAt(a,b,i) == IF i = 0 THEN 0
                 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1
                 ELSE NCmpAt(a,b,i-1)
NCmp(a,b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
             ELSE NCmpAt(a,b,Len(a))                            \* overridden

RECURSIVE NMulD(_,_,_,_)
NMulD(a,d,i,c) == IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
                  ELSE LET x == a[i]*d + c
                       IN << x % BASE >> \o NMulD(a,d,i+1,x \div BASE)
RECURSIVE NMulAt(_,_,_)
NMulAt(a,b,i) == IF i > Len(b) THEN << >>
                 ELSE NAdd(NNorm(NMulD(a,b[i],1,0)),
                           LET r == NMulAt(a,b,i+1)
                           IN IF r = << >> THEN << >> ELSE << 0 >> \o r)
NMul(a,b) == IF a = << >> \/ b = << >> THEN << >> ELSE NMulAt(a,b,1)  \* overridden

\* largest digit q with b*q <= r  (binary search)
RECURSIVE NQDigit(_,_,_,_)
NQDigit(r,b,lo,hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF NCmp(NNorm(NMulD(b,m,1,0)), r) <= 0 THEN NQDigit(r,b,m,hi)
          ELSE NQDigit(r,b,lo,m-1)
\* << quotient, remainder >>, b # 0
RECURSIVE NDivAt(_,_,_,_,_)
NDivAt(a,b,i,q,r) ==
  IF i = 0 THEN << NNorm(q), r >>
  ELSE LET r2 == NNorm(<< a[i] >> \o r)
           d  == NQDigit(r2,b,0,BASE-1)
       IN NDivAt(a,b,i-1,<< d >> \o q, NSub(r2, NNorm(NMulD(b,d,1,0))))
NDivMod(a,b) == NDivAt(a,b,Len(a),<< >>,<< >>)                  \* overridden
RECURSIVE NGcd(_,_)
NGcd(a,b) == IF b = << >> THEN a ELSE NGcd(b, NDivMod(a,b)[2])  \* overridden

------------------------------------------------------------------------------
(* rationals *)
RZero == << 0, << >>, << 1 >> >>
RNorm(s,n,d) == IF n = << >> \/ s = 0 THEN RZero
                ELSE LET g == NGcd(n,d)
                     IN << s, NDivMod(n,g)[1], NDivMod(d,g)[1] >>
ROf(i) == IF i = 0 THEN RZero
          ELSE << IF i < 0 THEN -1 ELSE 1, NOf(IF i < 0 THEN -i ELSE i), << 1 >> >>
ROne == ROf(1)
RSign(a) == a[1]
RNeg(a) == << -a[1], a[2], a[3] >>
RAbs(a) == IF a[1] < 0 THEN RNeg(a) ELSE a

RAdd(a,b) ==                                                    \* overridden
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET x == NMul(a[2],b[3])
           y == NMul(b[2],a[3])
           d == NMul(a[3],b[3])
       IN IF a[1] = b[1] THEN RNorm(a[1], NAdd(x,y), d)
          ELSE LET c == NCmp(x,y)
               IN IF c = 0 THEN RZero
                  ELSE IF c > 0 THEN RNorm(a[1], NSub(x,y), d)
                  ELSE RNorm(b[1], NSub(y,x), d)
RSub(a,b) == RAdd(a, RNeg(b))                                   \* overridden
RMul(a,b) == RNorm(a[1]*b[1], NMul(a[2],b[2]), NMul(a[3],b[3])) \* overridden
RDiv(a,b) == RNorm(a[1]*b[1], NMul(a[2],b[3]), NMul(a[3],b[2])) \* overridden, b # 0
RCmp(a,b) ==                                                    \* overridden
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF a[1] = 0 THEN 0
  ELSE a[1] * NCmp(NMul(a[2],b[3]), NMul(b[2],a[3]))
RLt(a,b) == RCmp(a,b) < 0
RLe(a,b) == RCmp(a,b) <= 0
REq(a,b) == RCmp(a,b) = 0
RMax(a,b) == IF RLt(a,b) THEN b ELSE a
RMin(a,b) == IF RLt(a,b) THEN a ELSE b
RFrac(i,j) == RDiv(ROf(i), ROf(j))
RInv(a) == RDiv(ROne, a)

RECURSIVE RSumAt(_,_)
RSumAt(s,i) == IF i = 0 THEN RZero ELSE RAdd(RSumAt(s,i-1), s[i])
RSum(s) == RSumAt(s, Len(s))                                    \* overridden
RECURSIVE RDotAt(_,_,_)
RDotAt(s,t,i) == IF i = 0 THEN RZero ELSE RAdd(RDotAt(s,t,i-1), RMul(s[i],t[i]))
RDot(s,t) == RDotAt(s,t,Len(s))                                 \* overridden

RECURSIVE RPow(_,_)
RPow(a,k) == IF k = 0 THEN ROne ELSE RMul(a, RPow(a,k-1))

\* truncation toward zero to a multiple of 10^(-4k)
RECURSIVE NScale(_)
NScale(k) == IF k = 0 THEN << 1 >> ELSE << 0 >> \o NScale(k-1)
RTrunc(a,k) == IF a[1] = 0 THEN a                               \* overridden
               ELSE RNorm(a[1], NDivMod(NMul(a[2],NScale(k)), a[3])[1], NScale(k))
RFloor(a) == IF a[1] = 0 THEN 0      \* small results only
             ELSE LET qr == NDivMod(a[2],a[3])
                      RECURSIVE ToInt(_)
                      ToInt(n) == IF n = << >> THEN 0 ELSE n[1] + BASE * ToInt(Tail(n))
                  IN IF a[1] > 0 THEN ToInt(qr[1])
                     ELSE IF qr[2] = << >> THEN -ToInt(qr[1]) ELSE -ToInt(qr[1]) - 1
=============================================================================
