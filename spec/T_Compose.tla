------------------------------ MODULE T_Compose ------------------------------
(* recorded compositions of real CTMCs and PCTMCs                             *)
EXTENDS Compose, TraceBase
Nm(x) == [t |-> "num", n |-> "", v |-> x, a |-> << >>]
Sy(p) == [t |-> "sym", n |-> p, v |-> RZero, a |-> << >>]
Local(m) == SelectSeq([i \in 1..Len(m.lab) |-> i], LAMBDA i : m.lab[i] # "init")
InitIx(m) == CHOOSE i \in 1..Len(m.lab) : m.lab[i] = "init"
Pos(q,x) == CHOOSE i \in 1..Len(q) : q[i] = x
\* rate expressions of the i-th component: those of a PCTMC, or one parameter per rate of a CTMC
SymRate(pre,m,s,t) == IF m.mat[s][t][1] = 0 THEN Nm(RZero) ELSE Sy(pre \o "_" \o ToString(s-1) \o "_" \o ToString(t-1))
SymInit(pre,m,x) == IF m.mat[InitIx(m)][Local(m)[x]][1] = 0 THEN Nm(RZero) ELSE Sy("init" \o pre \o "_" \o ToString(x-1))
Pre(i) == << "p", "q" >>[i]
\* every name with the values the components give it
CtmcNames(i,m) == LET L == Local(m) IN
  { << Pre(i) \o "_" \o ToString(s-1) \o "_" \o ToString(t-1), m.mat[s][t] >> : s \in { L[x] : x \in 1..Len(L) }, t \in { L[x] : x \in 1..Len(L) } } \cup
  { << "init" \o Pre(i) \o "_" \o ToString(x-1), m.mat[InitIx(m)][L[x]] >> : x \in 1..Len(L) }
Given(i,m) == IF m.k = "CTMC" THEN CtmcNames(i,m) ELSE { << m.pvals[j].p, m.pvals[j].v >> : j \in 1..Len(m.pvals) }
\* component i as expressions
CompE(i,m) ==
  LET L == Local(m) IN
  [ n |-> Len(L), lab |-> [x \in 1..Len(L) |-> m.lab[L[x]]],
    loc |-> [x \in 1..Len(L) |-> [y \in 1..Len(L) |-> IF m.k = "CTMC" THEN SymRate(Pre(i),m,L[x],L[y]) ELSE m.expr[L[x]][L[y]]]],
    ini |-> [x \in 1..Len(L) |-> IF m.k = "CTMC" THEN SymInit(Pre(i),m,x) ELSE m.expr[InitIx(m)][L[x]]],
    sync |-> [j \in 1..Len(m.sync) |-> [s |-> Pos(L,m.sync[j].s+1), a |-> m.sync[j].a, d |-> Pos(L,m.sync[j].d+1), r |-> IF m.k = "CTMC" THEN Nm(m.sync[j].r) ELSE m.sync[j].r]] ]
CompSyms(c) == UNION { Syms(c.loc[x][y]) : x \in 1..c.n, y \in 1..c.n } \cup UNION { Syms(c.ini[x]) : x \in 1..c.n } \cup UNION { Syms(c.sync[j].r) : j \in 1..Len(c.sync) }
ResSyms(r) == UNION { Syms(r.expr[x][y]) : x \in 1..Len(r.lab), y \in 1..Len(r.lab) }
\* three generic valuations
Envs(names) == LET ns == EnumSet(names) IN
  [q \in 1..3 |-> [n \in names |-> LET i == CHOOSE j \in 1..Len(ns) : ns[j] = n IN RDiv(ROf(Points[q][1+(i % 6)]), ROf(1+i))]]
VEval(e,envs) == [q \in 1..3 |-> Eval(e,envs[q])]
CompV(c,envs) == [ n |-> c.n, lab |-> c.lab,
  loc |-> [x \in 1..c.n |-> [y \in 1..c.n |-> VEval(c.loc[x][y],envs)]],
  ini |-> [x \in 1..c.n |-> VEval(c.ini[x],envs)],
  sync |-> [j \in 1..Len(c.sync) |-> [s |-> c.sync[j].s, a |-> c.sync[j].a, d |-> c.sync[j].d, r |-> VEval(c.sync[j].r,envs)]] ]
GraphOf(r,envs) == [ lab |-> r.lab, mat |-> [x \in 1..Len(r.lab) |-> [y \in 1..Len(r.lab) |-> VEval(r.expr[x][y],envs)]] ]
Pairs(r,p) == { << x-1, y-1 >> : x \in 1..Len(r.lab), y \in 1..Len(r.lab) }
\* bookkeeping of the parameters of a PCTMC
Books(r) ==
  { x \in {"parameter-names"} : \/ ~(ResSyms(r) \subseteq { r.pnames[i] : i \in 1..Len(r.pnames) })
                                \/ Cardinality({ r.pnames[i] : i \in 1..Len(r.pnames) }) # Len(r.pnames) } \cup
  { x \in {"parameter-indexes"} : Len(r.pidx) # Len(r.pnames) \/ \E i \in 1..Len(r.pnames) : i <= Len(r.pidx) /\
      ( \/ { << r.pidx[i][j][1], r.pidx[i][j][2] >> : j \in 1..Len(r.pidx[i]) } # { z \in Pairs(r,i) : r.pnames[i] \in Syms(r.expr[z[1]+1][z[2]+1]) }
        \/ Cardinality({ r.pidx[i][j] : j \in 1..Len(r.pidx[i]) }) # Len(r.pidx[i]) ) }
Composed(ms,r) ==
  IF r.k # "PCTMC" \/ Cardinality(GInit(r)) # 1 THEN {"not-a-pctmc"} ELSE
  LET cs == [i \in 1..Len(ms) |-> CompE(i,ms[i])]
      envs == TLCEval(Envs(ResSyms(r) \cup UNION { CompSyms(cs[i]) : i \in 1..Len(cs) }))
      given == UNION { Given(i,ms[i]) : i \in 1..Len(ms) }
      vals == EnvOf(r.pvals)
  IN F(SameGraph(TLCEval(Product(3,[i \in 1..Len(cs) |-> CompV(cs[i],envs)])), TLCEval(GraphOf(r,envs))), "product")
     \cup Books(r)
     \cup { x \in {"parameter-values"} : \E p \in { r.pnames[i] : i \in 1..Len(r.pnames) } :
              LET V == { g[2] : g \in { g \in given : g[1] = p } } IN
              IF V = {} THEN p \in DOMAIN vals ELSE ~(p \in DOMAIN vals /\ \E v \in V : Close(v,vals[p])) }
     \cup F(r.sync = << >>, "leftover-actions")
     \cup F(\A s \in 1..Len(r.lab) : Close(r.init[s], IF r.lab[s] = "init" THEN ROne ELSE RZero), "initial")
CFails(ev,o) ==
  IF ev.op = "empty" THEN F(ev.exc = "ValueError", "accepted") ELSE
  IF ev.exc # "" THEN {"raised"} ELSE
  CASE ev.op = "compose" -> Composed([i \in 1..Len(ev.ms) |-> o[ev.ms[i]]], ev.res)
    [] ev.op = "single" -> F(ev.res = o[ev.m], "single")
    [] ev.op = "set" -> \* new values of parameters: nothing else changes
         LET m == o[ev.m]  n == PostOf(ev,ev.m)  want == [p \in DOMAIN EnvOf(m.pvals) \cup DOMAIN EnvOf(ev.pv) |-> IF p \in DOMAIN EnvOf(ev.pv) THEN EnvOf(ev.pv)[p] ELSE EnvOf(m.pvals)[p]]
         IN F([n EXCEPT !.pvals = m.pvals] = m /\ EnvOf(n.pvals) = want, "instantiation")
    [] ev.op = "rates" ->
         LET m == o[ev.m]  env == EnvOf(m.pvals) IN
         F(\A s,t \in 1..Len(m.lab) : Close(ev.vals[s][t], Eval(m.expr[s][t],env)), "rates")
Fails(ev,o) == CFails(ev,o) \cup F(~Changed(ev,o,IF ev.op = "set" THEN {ev.m} ELSE {}), "modified-components")
Next == Consume(Fails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
