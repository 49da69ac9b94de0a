------------------------------- MODULE T_Fit -------------------------------
(* Trace specification of complete Baum-Welch runs.  ev.steps is the history  *)
(* of single iterations from the same start: steps[i] = [ll, obj], ll the     *)
(* likelihood reported by iteration i, obj the hypothesis it produced.        *)
EXTENDS EM, TraceBase, T_Common

\* rounding: a gain this close to epsilon may stop or not
SLACK == RFrac(1,1000000000)
Gain(st,i) == RSub(st[i].ll, st[i-1].ll)
MayStop(st,i,eps) == i >= 2 /\ RLt(Gain(st,i), RAdd(eps,SLACK))
MustStop(st,i,eps) == i >= 2 /\ RLt(Gain(st,i), RSub(eps,SLACK))
\* r iterations are a correct outcome
RoundsOK(st,r,eps,maxit) ==
  /\ r >= 1 /\ r <= maxit /\ r <= Len(st)
  /\ \A i \in 2..(r-1) : ~MustStop(st,i,eps)
  /\ r = maxit \/ MayStop(st,r,eps)
FitFails(ev,o) ==
  CASE ev.op = "fit" ->
        IF ev.exc # "" THEN {"raised"}
        ELSE IF ~RoundsOK(ev.steps, ev.rounds, ev.eps, ev.maxit) THEN {"rounds"}
        ELSE LET fin == ev.steps[ev.rounds]
             IN F(Close(ev.ll, fin.ll), "reported-loglikelihood")
                \cup F(ObjClose(ev.ret, fin.obj), "returned-model")
                \cup F(ObjClose(PostOf(ev,ev.m), ev.ret), "initial-model")
                \cup F(ev.filesame, "output-file") \cup F(ev.prismsame, "output-prism")
                \cup F(~Changed(ev,o,{ev.m}), "modified-other")
    [] ev.op = "split" ->  \* k iterations then j more, against k+j at once
        IF ev.exc # "" THEN {"raised"}
        ELSE F(ObjClose(ev.two, ev.one), "split-differs") \cup F(Close(ev.ll2, ev.ll1), "split-loglikelihood")
    [] ev.op = "forms" ->  \* the form in which traces and hypothesis are given does not matter, and the traces are left alone
        IF ev.exc # "" THEN {"raised"}
        ELSE F(ObjClose(ev.ret, ev.want), "form-differs") \cup F(ev.same, "modified-traces")
    [] ev.op = "mismatch" -> F(ev.exc # "", "accepts-other-traces") \cup F(~Changed(ev,o,{}), "modified")
    [] ev.op = "fresh" ->  \* random start: ev.nb states asked, ev.ret learned
        \* (a random hypothesis with a fixed first state or without self-loops may be unable to produce any trace: an error)
      IF ~ev.full /\ ev.exc # "" THEN {} ELSE IF ev.exc # "" THEN {"raised"}
        ELSE F(ev.rounds >= 1 /\ ev.rounds <= ev.maxit, "rounds")
             \cup F(N(ev.ret) = ev.nb + (IF ev.ret.k \in {"HMM","GOHMM"} THEN 0 ELSE 1), "nb_states")
             \cup F(ev.ret.k = ev.kind, "class") \cup F(RowsOK(ev.ret), "well-formed")
             \cup F(ev.ret.k \notin {"MC","CTMC","MDP"} \/ { ev.ret.lab[i] : i \in 1..N(ev.ret) } \subseteq { ev.labs[i] : i \in 1..Len(ev.labs) } \cup {"init"}, "labels")
             \cup F(ev.ret.k # "MDP" \/ { ev.ret.acts[i] : i \in 1..Len(ev.ret.acts) } = { ev.acts[i] : i \in 1..Len(ev.acts) }, "actions")
Next == Consume(FitFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
