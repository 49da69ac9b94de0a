----------------------------- MODULE T_Persist -----------------------------
(* Trace specification of save / load histories of models.  The file system   *)
(* is part of the state: o["file:f"] is the record of the model last written  *)
(* to f (the record of the model at the time it was saved).                   *)
EXTENDS Expr, T_Common, TraceBase
Class(k) == CASE k = "GOHMM" -> "GoHMM" [] OTHER -> k
SameExprs(A,B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) :
                    A[i][j] = B[i][j] \/ (Syms(A[i][j]) = Syms(B[i][j]) /\ SameExpr(A[i][j],B[i][j]))
SyncSame(A,B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : A[i].s = B[i].s /\ A[i].a = B[i].a /\ A[i].d = B[i].d /\ SameExpr(A[i].r,B[i].r)
Fields(k) == CASE k = "MC" -> {"mat","lab","alph"} [] k = "MDP" -> {"mat","lab","acts","alph"}
               [] k = "CTMC" -> {"mat","lab","alph","sync"} [] k = "HMM" -> {"mat","out","alpha"}
               [] k = "GOHMM" -> {"mat","out"} [] k = "PCTMC" -> {"lab","alph","pnames","pvals","pidx"}
Differ(a,b) ==
  IF a.k # b.k THEN {"class"} ELSE
  { f \in Fields(a.k) \cup {"name","init"} : a[f] # b[f] }
  \cup (IF a.k # "PCTMC" THEN {} ELSE F(SameExprs(a.expr,b.expr),"expr") \cup F(SyncSame(a.sync,b.sync),"sync"))
Moved(ev,o,but) == \E i \in 1..Len(ev.post) : ev.post[i].id # but /\ ev.post[i].obj # o[ev.post[i].id]
PFails(ev,o) ==
  CASE ev.op = "save" -> IF ev.exc # "" THEN {"raised"} ELSE F(~Moved(ev,o,""), "modified-by-save")
    [] ev.op = "change" -> F(~Moved(ev,o,ev.m), "aliased")
    [] ev.op = "load" ->
         LET f == o["file:" \o ev.file] IN
         F(~Moved(ev,o,""), "modified-by-load") \cup
         (IF f.k = ev.kind
          THEN IF ev.exc # "" THEN {"raised"} ELSE F(ev.cls = Class(ev.kind), "class") \cup Differ(ev.res,f)
          ELSE F(ev.exc # "", "accepts-other-class"))
\* the file system after an event
Files(ev,o) == IF ev.op # "save" \/ ev.exc # "" THEN o ELSE ("file:" \o ev.file :> o[ev.m]) @@ o
Next == ConsumeU(PFails,Files)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
