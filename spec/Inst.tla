-------------------------------- MODULE Inst --------------------------------
(* Instantiation of the parameters of a PCTMC.  A valuation env maps the      *)
(* instantiated parameters to values; pv = << [p,v] >> is a request (the last *)
(* entry of a parameter wins).  A request is carried out completely or not at *)
(* all: it is valid when it names known parameters only and no rate that is   *)
(* then defined is negative.                                                  *)
EXTENDS Expr
Apply(env,pv) == [n \in DOMAIN env \cup { pv[i].p : i \in 1..Len(pv) } |->
   LET h == { i \in 1..Len(pv) : pv[i].p = n } IN
   IF h = {} THEN env[n] ELSE pv[CHOOSE i \in h : \A j \in h : j <= i].v]
Known(pv,names) == \A i \in 1..Len(pv) : pv[i].p \in names
\* rates: set of expressions
RatesOK(rates,env) == \A e \in rates : Defined(e,env) => Eval(e,env)[1] >= 0
Valid(rates,names,env,pv) == Known(pv,names) /\ RatesOK(rates, Apply(env,pv))
Instantiate(rates,names,env,pv) == IF Valid(rates,names,env,pv) THEN Apply(env,pv) ELSE env
=============================================================================
