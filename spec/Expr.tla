-------------------------------- MODULE Expr --------------------------------
(* Rate expressions over parameters: [t, n, v, a] with t in                   *)
(* num (value v), sym (name n), add / mul (arguments a), pow (a[1] ^ v).      *)
EXTENDS Real
RECURSIVE Syms(_)
Syms(e) == CASE e.t = "sym" -> {e.n}
             [] e.t \in {"add","mul","pow"} -> UNION { Syms(e.a[i]) : i \in 1..Len(e.a) }
             [] OTHER -> {}
RPowI(b,k) == IF k >= 0 THEN RPow(b,k) ELSE RInv(RPow(b,-k))
RInt(v) == v[1] * RFloor(RAbs(v))
RECURSIVE Eval(_,_)
Eval(e,env) == CASE e.t = "num" -> e.v
                 [] e.t = "sym" -> env[e.n]
                 [] e.t = "add" -> RSum([i \in 1..Len(e.a) |-> Eval(e.a[i],env)])
                 [] e.t = "mul" -> FoldLeft(LAMBDA x,y : RMul(x,Eval(y,env)), ROne, e.a)
                 [] e.t = "pow" -> RPowI(Eval(e.a[1],env), RInt(e.v))
\* environment from << [p,v] >>
EnvOf(pv) == [n \in { pv[i].p : i \in 1..Len(pv) } |-> pv[CHOOSE i \in 1..Len(pv) : pv[i].p = n].v]
\* e is defined by the instantiated parameters
Defined(e,env) == Syms(e) \subseteq DOMAIN env
\* same function of the parameters, decided at three points
Points == << <<2,3,5,7,11,13>>, <<17,4,9,2,6,1>>, <<3,8,1,12,5,10>> >>
RECURSIVE EnumSet(_)
EnumSet(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o EnumSet(S \ {x})
SameExpr(e,f) ==
  LET ns == EnumSet(Syms(e) \cup Syms(f)) IN
  \A q \in 1..3 : LET env == [n \in Syms(e) \cup Syms(f) |-> LET i == CHOOSE j \in 1..Len(ns) : ns[j] = n
                                IN RDiv(ROf(Points[q][1+(i % 6)]), ROf(1+i))]
                  IN Close(Eval(e,env), Eval(f,env))
=============================================================================
