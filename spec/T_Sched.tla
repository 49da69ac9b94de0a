------------------------------ MODULE T_Sched ------------------------------
(* Trace specification of schedulers and MDP runs.  The memory state of each  *)
(* finite-memory scheduler is part of the specification's state (o["mem:f"]). *)
EXTENDS Sched, TraceBase
Mem(o,f) == IF ("mem:" \o f) \in DOMAIN o THEN o["mem:" \o f] ELSE 0
NextMem(ev,o) == CASE ev.op = "f_reset" -> 0 [] ev.op = "f_obs" -> Move(o[ev.f],Mem(o,ev.f),ev.obs)
                   [] ev.op = "f_seq" -> MemAfter(o[ev.f],ev.seq) [] OTHER -> Mem(o,ev.f)
Cur(ev,o) == \* the action distribution the scheduler now reports
  LET e == o[ev.f].acts[NextMem(ev,o)+1] IN F(ev.cur.a = e.a /\ CloseSeq(ev.cur.p,e.p), "memory-state")
FmsFails(ev,o) ==
  LET f == o[ev.f]  s == Mem(o,ev.f) IN
  IF ev.exc # "" THEN {"raised"} ELSE
  (IF ev.op = "f_seq" THEN {} ELSE Cur(ev,o)) \cup
  (CASE ev.op = "f_act" -> F(Sg(f,s,ev.res)[1] > 0, "action-not-allowed")
     [] ev.op = "f_actfreq" -> F(\A i \in 1..Len(f.acts[s+1].a) : Fits(ev.c[i],ev.n,f.acts[s+1].p[i]), "frequency")
     [] ev.op = "f_seq" -> F(ev.res = MemSeq(f,ev.seq), "state-sequence")
     [] ev.op = "f_prob" -> F(Close(ev.res, Sg(f,IF ev.s < 0 THEN s ELSE ev.s,ev.a)), "probability")
     [] ev.op = "f_acts" -> F(LET e == f.acts[(IF ev.s < 0 THEN s ELSE ev.s)+1] IN ev.res.a = e.a /\ CloseSeq(ev.res.p,e.p), "actions")
     [] OTHER -> {})
\* --- runs
Unmoved(ev,o) == F(~Changed(ev,o,{}), "modified-by-run")
RunPossible(m,tr) == Len(tr) % 2 = 1 /\ Prob(TrellisOf(m,tr))[1] > 0
\* the calls the run made on the scheduler: ev.log = << [c, x] >> with c in reset / get / obs
Gets(log,k) == { i \in 1..Len(log) : log[i].c = "get" /\ Len(SelectSeq(SubSeq(log,1,i), LAMBDA e : e.c = "obs")) = k }
Told(log) == LET s == SelectSeq(log, LAMBDA e : e.c = "obs") IN [i \in 1..Len(s) |-> s[i].x]
\* actions finally chosen: the last request before the next observation
Chosen(log,first,n) == [k \in 1..n |-> LET g == Gets(log,first+k-1) IN IF g = {} THEN "?" ELSE log[CHOOSE i \in g : \A j \in g : j <= i].x]
LagOf(ev) == IF \E i \in 1..Len(ev.log) : ev.log[i].c = "get" /\ \A j \in 1..i : ev.log[j].c # "obs" THEN 1 ELSE 0
Protocol(ev) ==
  LET log == ev.log  obs == Odds(ev.res)  act == Evens(ev.res)  n == Len(act)  told == Told(log)  lag == LagOf(ev) IN
  F(Len(log) > 0 /\ log[1].c = "reset", "not-reset")
  \cup F(\A i \in 2..Len(log) : log[i].c # "reset", "reset-during-run")
  \cup F(Len(told) <= Len(obs) /\ Len(told) >= n /\ told = SubSeq(obs,1,Len(told)), "observations-told")
  \cup F(Chosen(log,1-lag,n) = act, "actions-chosen")
MrunFails(ev,o) ==
  LET m == StartIn(o[ev.m],ev.cur)  sc == ev.sc IN
  IF ev.exc # "" THEN {"raised"} ELSE
  F(Len(ev.res) = 2*ev.n+1, "length") \cup
  (IF ~RunPossible(m,ev.res) THEN {"impossible-run"} ELSE
   (IF ev.n = 0 THEN {} ELSE
    F(\E lag \in {0,1} : (ev.sc.kind # "fms" \/ lag = LagOf(ev)) /\ Prob(SchedTrellis(m,sc,ev.res,lag))[1] > 0, "not-by-scheduler"))
   \cup (IF Len(ev.log) = 0 /\ sc.kind = "memoryless" THEN {} ELSE Protocol(ev)))
MsetFails(ev,o) ==
  LET m == o[ev.m]  ms == ev.res.ms  n(i) == Len(Evens(ms[i].tr)) IN
  IF ev.exc # "" THEN {"raised"} ELSE
  F(Total(ms) = ev.size /\ \A i \in 1..Len(ms) : ms[i].n >= 1, "size") \cup F(ev.res.t = 1, "kind")
  \cup F(\A i,j \in 1..Len(ms) : i # j => ms[i].tr # ms[j].tr, "duplicate-entry")
  \cup F(\A i \in 1..Len(ms) : RunPossible(m,ms[i].tr), "impossible-run")
  \cup F(\A i \in 1..Len(ms) : ~RunPossible(m,ms[i].tr) \/ \E lag \in {0,1} : Prob(SchedTrellis(m,ev.sc,ms[i].tr,lag))[1] > 0, "not-by-scheduler")
  \cup F(IF ev.geo THEN \A i \in 1..Len(ms) : n(i) >= ev.min + 1
         ELSE \A x \in { ev.lens[i] : i \in 1..Len(ev.lens) } \cup { n(i) : i \in 1..Len(ms) } :
                Cardinality({ i \in 1..Len(ev.lens) : ev.lens[i] = x }) = FoldLeft(LAMBDA a,i : a + (IF n(i) = x THEN ms[i].n ELSE 0), 0, [i \in 1..Len(ms) |-> i]), "lengths")
MfreqFails(ev,o) ==
  F(\E lag \in {0,1} : \A i \in 1..Len(ev.items) : Fits(ev.items[i].c, ev.n, Prob(SchedTrellis(o[ev.m],ev.sc,ev.items[i].pre,lag))), "frequency")
SFails(ev,o) ==
  CASE ev.op \in {"f_new","f_reset","f_obs","f_act","f_actfreq","f_seq","f_prob","f_acts"} -> FmsFails(ev,o)
    [] ev.op = "mrun" -> MrunFails(ev,o) \cup Unmoved(ev,o)
    [] ev.op = "mset" -> MsetFails(ev,o) \cup Unmoved(ev,o)
    [] ev.op = "mfreq" -> MfreqFails(ev,o)
    [] ev.op = "mnext" -> (IF ev.exc # "" THEN {"raised"} ELSE LET m == o[ev.m] IN
          F(m.mat[ev.s+1][IdxOf(m.acts,ev.a)][ev.t+1][1] > 0 /\ ev.obs = m.lab[ev.s+1], "impossible-step")) \cup Unmoved(ev,o)
    \* an action the state does not offer is an error of the caller, not an endless loop
    [] ev.op = "munavailable" -> F(ev.exc # "" /\ ev.exc # "Timeout", "unavailable-action") \cup Unmoved(ev,o)
Upd(ev,o) == IF ev.op \in {"f_reset","f_obs","f_seq"} THEN ("mem:" \o ev.f :> NextMem(ev,o)) @@ o ELSE o
Next == ConsumeU(SFails,Upd)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
