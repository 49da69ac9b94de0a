------------------------------- MODULE T_Run -------------------------------
(* Trace specification of simulation: runs and generated sets.                *)
EXTENDS Runs, TraceBase
Unmoved(ev,o) == F(~Changed(ev,o,{}), "modified-by-run")
TraceFails(m,tr,timed,n) ==
  F(WellTimed(tr,timed), "timing") \cup
  (IF ~WellTimed(tr,timed) THEN {} ELSE
   F(Len(tr) = 0 \/ Possible(m,tr,timed), "impossible-trace") \cup
   F(n < 0 \/ (IF Len(tr) = 0 THEN StepsOf(m,0) = n ELSE ~Possible(m,tr,timed) \/ RightLength(m,tr,timed,n)), "length")
   \cup F(m.k # "GOHMM" \/ \A i \in 1..Len(tr) : Len(tr[i]) = Len(m.out[1]) /\ \A j \in 1..Len(tr[i]) : IsFin(tr[i][j]), "vector"))
\* lengths: the requested ones, as a multiset (runs may stop early in absorbing states)
RECURSIVE Cnt(_,_,_)
Cnt(s,x,i) == IF i = 0 THEN 0 ELSE (IF s[i] = x THEN 1 ELSE 0) + Cnt(s,x,i-1)
NSumF(ms,P(_)) == FoldLeft(LAMBDA a,i : a + (IF P(i) THEN ms[i].n ELSE 0), 0, [i \in 1..Len(ms) |-> i])
LenMatch(m,ms,lens,timed) ==
  LET need == { lens[i] : i \in 1..Len(lens) }
      k(i) == StepsOf(m,Len(Labels(ms[i].tr,timed)))
      early(i) == m.k = "CTMC" /\ \E s \in LastStates(m,Labels(ms[i].tr,timed)) : RowMass(m,s)[1] = 0
      full == { i \in 1..Len(ms) : ~early(i) }
  IN /\ \A x \in need : NSumF(ms, LAMBDA i : i \in full /\ k(i) = x) <= Cnt(lens,x,Len(lens))
     /\ \A i \in full : k(i) \in need
     /\ (full = 1..Len(ms) => \A x \in need : NSumF(ms, LAMBDA i : k(i) = x) = Cnt(lens,x,Len(lens)))
     /\ \A i \in (1..Len(ms)) \ full : \E x \in need : k(i) <= x
Kind(m,timed) == CASE m.k = "GOHMM" -> 3 [] timed -> 4 [] OTHER -> 0
SetFails(ev,o) ==
  LET m == o[ev.m]  ms == ev.res.ms  multi == \E i \in 1..Len(ms) : Len(ms[i].tr) > 1 IN
  F(Total(ms) = ev.size /\ \A i \in 1..Len(ms) : ms[i].n >= 1, "size")
  \cup F(Len(ms) = 0 \/ ev.res.t = Kind(m,ev.timed) \/ (~multi /\ ev.timed), "kind")
  \cup F(\A i,j \in 1..Len(ms) : i # j => ms[i].tr # ms[j].tr, "duplicate-entry")
  \cup UNION { TraceFails(m,ms[i].tr,ev.timed,-1) : i \in 1..Len(ms) }
  \cup (IF ev.geo THEN F(m.k = "CTMC" \/ \A i \in 1..Len(ms) : StepsOf(m,Len(ms[i].tr)) >= ev.min + 1, "length")
        ELSE F(LenMatch(m,ms,ev.lens,ev.timed), "lengths"))
RFails(ev,o) ==
  CASE ev.op = "run" -> (IF ev.exc # "" THEN {"raised"} ELSE TraceFails(From(o[ev.m],ev.cur),ev.res,ev.timed,ev.n)) \cup Unmoved(ev,o)
    [] ev.op = "genset" -> (IF ev.exc # "" THEN {"raised"} ELSE SetFails(ev,o)) \cup Unmoved(ev,o)
    [] ev.op = "next" ->   \* one step from state ev.s to ev.t emitting ev.obs (a label, or a vector)
         (IF ev.exc # "" THEN {"raised"} ELSE LET m == o[ev.m] IN
          F(m.mat[ev.s+1][ev.t+1][1] > 0, "impossible-step") \cup
          F(CASE m.k = "HMM" -> LET i == IdxOf(m.alpha,ev.obs) IN i # 0 /\ m.out[ev.s+1][i][1] > 0
              [] m.k = "GOHMM" -> Len(ev.obs) = Len(m.out[1]) [] OTHER -> m.lab[ev.s+1] = ev.obs, "observation")) \cup Unmoved(ev,o)
    \* ev.n runs; ev.items: << [pre, th, c] >>: c of them start with labels pre (and satisfy the thresholds)
    [] ev.op = "freq" -> F(\A i \in 1..Len(ev.items) : Fits(ev.items[i].c, ev.n, PrefixP(From(o[ev.m],ev.cur),ev.items[i].pre,ev.items[i].th)), "frequency")
    [] ev.op = "lens" -> F(\A i \in 1..Len(ev.items) : Fits(ev.items[i].c, ev.n, GeoP(ev.q,ev.items[i].k)), "length-frequency")
    \* chosen indices of a distribution
    [] ev.op = "resolve" -> F(\A i \in 1..Len(ev.p) : (ev.p[i][1] = 0 => ev.c[i] = 0) /\ Fits(ev.c[i], ev.n, RDiv(ev.p[i],RSum(ev.p))), "frequency")
Next == Consume(RFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
