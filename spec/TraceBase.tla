----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  A recorded execution is a       *)
(* sequence of sessions; a session is a history of calls of the real library *)
(* on named objects.  State:                                                 *)
(*   l    position in the trace                                              *)
(*   objs name -> abstract object, as the specification believes it to be    *)
(*   nbad number of calls that were not explained so far                     *)
(* Every event carries op, sess, exc ("" or the exception class), and post:  *)
(* a sequence of [id, obj] with the projected state, after the call, of the  *)
(* objects it touched.  After a call the specification adopts the logged     *)
(* state (so that one deviation does not hide later ones).                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, objs, nbad
tvars == << l, objs, nbad >>

RECURSIVE Adopt(_,_,_)
Adopt(o,post,i) == IF i > Len(post) THEN o
                   ELSE Adopt((post[i].id :> post[i].obj) @@ o, post, i+1)
NoObjs == [x \in {} |-> 0]
NextObjs(ev,o) == IF ev.op = "reset" THEN NoObjs ELSE TLCEval(Adopt(o,ev.post,1))

\* objects whose logged state differs from the state the specification knows,
\* except those in `allowed`
Changed(ev,o,allowed) ==
  \E i \in 1..Len(ev.post) : /\ ev.post[i].id \in DOMAIN o
                             /\ ev.post[i].id \notin allowed
                             /\ ev.post[i].obj # o[ev.post[i].id]
PostOf(ev,id) == LET i == CHOOSE i \in 1..Len(ev.post) : ev.post[i].id = id IN ev.post[i].obj

F(cond, name) == IF cond THEN {} ELSE {name}

TraceInit == l = 0 /\ objs = NoObjs /\ nbad = 0
Report(ev,fails) == IF fails = {} THEN TRUE
                    ELSE PrintT("BAD " \o ToJson([at |-> l+1, sess |-> ev.sess, op |-> ev.op, clauses |-> fails]))
\* Consume(Fails): read the next event; Fails(ev,o) is the set of violated clauses
Consume(Fails(_,_)) ==
  /\ l < Len(Trace)
  /\ LET ev == Trace[l+1]
         fs == TLCEval(CASE ev.op \in {"reset","def"} -> {}
                         [] ev.op = "crash" -> {"crashed"}
                         [] OTHER -> Fails(ev,objs))
     IN /\ Report(ev,fs)
        /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ objs' = NextObjs(ev,objs)
  /\ l' = l+1
\* the same with state the events only imply (files, ...): Upd(ev,o) is applied before the logged states
ConsumeU(Fails(_,_),Upd(_,_)) ==
  /\ l < Len(Trace)
  /\ LET ev == Trace[l+1]
         fs == TLCEval(CASE ev.op \in {"reset","def"} -> {}
                         [] ev.op = "crash" -> {"crashed"}
                         [] OTHER -> Fails(ev,objs))
     IN /\ Report(ev,fs)
        /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ objs' = NextObjs(ev, TLCEval(Upd(ev,objs)))
  /\ l' = l+1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
