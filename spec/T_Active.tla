------------------------------ MODULE T_Active ------------------------------
(* Trace specification of active learning.  act_begin .. act_end is one call  *)
(* of fit; in between the system under learning logs every run asked of it.   *)
(* o["act"] is the learner's state: [h, total, sample, it, cnt, dead].        *)
EXTENDS Active, Freq, TraceBase, T_Common
A(o) == o["act"]
\* fit that notices when nothing can be learned
FitD(h0,ms,k) == FoldLeft(LAMBDA st,i : IF ~st.ok \/ ~CanLearn(st.h,ms) THEN [ok |-> FALSE, h |-> st.h]
                                        ELSE [ok |-> TRUE, h |-> IF i = k+1 THEN st.h ELSE EMR(st.h,ms)],
                          [ok |-> TRUE, h |-> h0], [i \in 1..k+1 |-> i])
Begin(ev,o) == LET f == IF ev.k < 0 THEN [ok |-> CanLearn(o[ev.m],o[ev.s].ms), h |-> o[ev.m]] ELSE FitD(o[ev.m],o[ev.s].ms,ev.k) IN
  [h |-> f.h, dead |-> ~f.ok, total |-> o[ev.s].ms, sample |-> << >>, last |-> << >>, it |-> 0, cnt |-> << >>, p |-> ev]
\* --- runs
Idx(h,x) == IdxOf(h.acts,x)
\* follow the calls made on the scheduler: state [b, cnt, ref, fails]
Follow(h,cnt0,log,active) ==
  LET step(st,e) ==
    CASE e.c = "reset" -> [st EXCEPT !.b = h.init, !.ref = {}, !.a = 0]
      [] e.c = "get" -> LET r == IF st.a = 0 THEN st.ref ELSE st.ref \cup {st.a} IN [st EXCEPT !.ref = r, !.a = Idx(h,e.x),
           !.fails = @ \cup F(Idx(h,e.x) # 0, "unknown-action") \cup
              (IF Len(e.d) = 0 \/ Idx(h,e.x) = 0 THEN {}
               ELSE IF ~active THEN F(\A i \in 1..Len(e.d) : Fits(e.d[i],e.n,RFrac(1,Len(h.acts))), "explore-distribution")
               ELSE LET p == ChoiceP(h,st.cnt,st.b,r) IN F(\A i \in 1..Len(e.d) : Fits(e.d[i],e.n,p[i]), "exploit-distribution"))
              \cup (IF active /\ Idx(h,e.x) # 0 THEN F(ChoiceP(h,st.cnt,st.b,r)[Idx(h,e.x)][1] > 0, "exploit-choice") ELSE {})]
      [] e.c = "obs" -> IF st.a = 0 \/ ~active THEN [st EXCEPT !.ref = {}, !.a = 0]
                        ELSE [st EXCEPT !.cnt = Counted(h,@,st.b,st.a), !.b = Told(h,@,st.a,e.x), !.ref = {}, !.a = 0]
  IN FoldLeft(step, [b |-> h.init, cnt |-> cnt0, ref |-> {}, a |-> 0, fails |-> {}], log)
CntOf(a,total) == IF a.cnt = << >> THEN UseCounts(a.h,total) ELSE a.cnt
Walk(ev,o) == LET a == A(o) IN
   IF ev.kind = "active" THEN Follow(a.h, TLCEval(CntOf(a,a.total)), ev.log, TRUE) ELSE Follow(a.h, << >>, ev.log, FALSE)
RunFails(ev,o) ==
  LET a == A(o) IN IF a.dead THEN {} ELSE
  F(a.it < a.p.nit, "too-many-runs") \cup F(ev.n = a.p.len, "length")
  \cup F(ev.kind \in {"active","uniform"}, "scheduler")
  \cup F(ev.kind # "active" \/ a.p.eg[1] > 0, "exploits-with-rate-0") \cup F(ev.kind # "uniform" \/ RLt(a.p.eg,ROne), "explores-with-rate-1")
  \cup (IF a.p.k < 0 THEN {} ELSE Walk(ev,o).fails)
\* a sample is complete: learn
Done(a) == IF Total(a.sample) < a.p.ns THEN a ELSE
  LET tot == AddAll(a.total,a.sample)
      src == LearnsFrom(a.sample,tot,a.p.lr)
      f   == IF a.p.k < 0 THEN [ok |-> TRUE, h |-> a.h] ELSE FitD(a.h,src,a.p.k)
  IN [a EXCEPT !.total = tot, !.sample = << >>, !.last = a.sample, !.it = @+1, !.cnt = << >>, !.dead = @ \/ ~f.ok,
        !.h = IF ~f.ok \/ a.p.lr.kind = "zero" THEN f.h ELSE TLCEval(Blend(f.h, a.h, WeightOf(a.p.lr,a.sample,tot)))]
AfterRun(ev,o) == LET a == A(o) IN IF a.dead THEN a ELSE
  Done([a EXCEPT !.sample = AddTrace(@,ev.res,1),
                 !.cnt = IF ev.kind = "active" /\ a.p.k >= 0 THEN Walk(ev,o).cnt ELSE @])
\* many runs at once (no log): the mix of schedulers
BulkFails(ev,o) == LET a == A(o) IN IF a.dead THEN {} ELSE
  F(a.it < a.p.nit /\ Total(ev.ms) = a.p.ns, "number-of-runs") \cup F(\A i \in 1..Len(ev.lens) : ev.lens[i] = a.p.len, "length")
  \cup F(Fits(ev.active, Total(ev.ms), a.p.eg), "mix-of-schedulers")
AfterBulk(ev,o) == LET a == A(o) IN IF a.dead THEN a ELSE Done([a EXCEPT !.sample = ev.ms])
\* --- end of the call
MatNear(c,x) == Len(c) = Len(x) /\ \A s \in 1..Len(x) : Len(c[s]) = Len(x[s]) /\ \A i \in 1..Len(x[s]) : Len(c[s][i]) = Len(x[s][i])
                  /\ \A u \in 1..Len(x[s][i]) : CloseT(c[s][i][u],x[s][i][u],RFrac(1,10000000),RFrac(1,1000))
EndFails(ev,o) ==
  LET a == A(o)  old == o[a.p.m] IN
  IF a.dead THEN {}
  ELSE IF ev.exc # "" THEN F(ev.exc = "ValueError" /\ a.p.k < 0 /\ a.p.lr.kind # "zero" /\ a.last # << >> /\ ~CanLearn(PostOf(ev,a.p.m),a.last), "raised") ELSE
  F(a.it = a.p.nit /\ a.sample = << >>, "number-of-runs")
  \cup F(ev.ret.k = "MDP" /\ ev.ret.lab = old.lab /\ ev.ret.acts = old.acts /\ CloseSeq(ev.ret.init,old.init), "frame")
  \cup F(RowsOK(ev.ret), "well-formed")
  \cup F(a.p.k < 0 \/ MatNear(ev.ret.mat,a.h.mat), "hypothesis")
  \cup F(a.p.k < 0 \/ ev.rounds = a.p.k*(a.p.nit+1), "rounds")
  \cup F(LET ps == Probs(ev.ret,a.total,FALSE) IN (\A i \in 1..Len(ps) : ps[i][1] = 0) \/ (\E i \in 1..Len(ps) : TooSmall(ps[i]))
           \/ Close(ev.ll, RDiv(SumLogs(ps,a.total),ROf(Total(a.total)))), "reported-loglikelihood")
  \cup F(ObjClose(PostOf(ev,a.p.m),ev.ret), "initial-model")
  \cup F(ev.filesame, "output-file") \cup F(ev.prismsame, "output-prism")
  \cup F(~Changed(ev,o,{a.p.m}), "modified-other")
\* a call that started from a random hypothesis or a list, or returned a Storm model: only its result is examined
FreshFails(ev,o) ==
  IF ev.exc # "" THEN (IF ev.full THEN {"raised"} ELSE {}) ELSE
  F(ev.runs = ev.nit*ev.ns, "number-of-runs") \cup F(\A i \in 1..Len(ev.lens) : ev.lens[i] = ev.len, "length")
  \cup F(ev.ret.k = "MDP" /\ N(ev.ret) = ev.nb + 1 /\ { ev.ret.lab[i] : i \in 1..N(ev.ret) } \subseteq { ev.labs[i] : i \in 1..Len(ev.labs) } \cup {"init"}
        /\ { ev.ret.acts[i] : i \in 1..Len(ev.ret.acts) } = { ev.acts[i] : i \in 1..Len(ev.acts) }, "frame")
  \cup F(RowsOK(ev.ret), "well-formed")
AFails(ev,o) ==
  CASE ev.op = "act_begin" -> {}
    [] ev.op = "act_run" -> RunFails(ev,o) \cup F(RSign(Prob(TrellisOf(o["sul"],ev.res))) > 0, "impossible-run")
    [] ev.op = "act_bulk" -> BulkFails(ev,o)
    [] ev.op = "act_end" -> EndFails(ev,o)
    [] ev.op = "act_fresh" -> FreshFails(ev,o)
    [] ev.op = "act_storm" -> IF ev.exc # "" THEN (IF ev.full THEN {"raised"} ELSE {})
                              ELSE F(ev.n = ev.nb+1, "frame") \cup F(ev.runs = ev.nit*ev.ns, "number-of-runs")
Upd(ev,o) == CASE ev.op = "act_begin" -> ("act" :> Begin(ev,o)) @@ o
               [] ev.op = "act_run" -> ("act" :> AfterRun(ev,o)) @@ o
               [] ev.op = "act_bulk" -> ("act" :> AfterBulk(ev,o)) @@ o
               [] OTHER -> o
Next == ConsumeU(AFails,Upd)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
