------------------------------ MODULE T_Common ------------------------------
(* comparisons of projected model objects *)
EXTENDS Models
RateSync(a,b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].s = b[i].s /\ a[i].a = b[i].a /\ a[i].d = b[i].d /\ Close(a[i].r,b[i].r)
\* equality up to rounding of the parameters
ObjClose(a,b) ==
  /\ a.k = b.k /\ CloseSeq(a.init,b.init)
  /\ (IF a.k = "MDP" THEN CloseMat3(a.mat,b.mat) ELSE CloseMat(a.mat,b.mat))
  /\ (a.k = "HMM" => CloseMat(a.out,b.out) /\ a.alpha = b.alpha)
  /\ (a.k = "GOHMM" => CloseMat3(a.out,b.out))
  /\ (a.k \in {"MC","MDP","CTMC"} => a.lab = b.lab)
  /\ (a.k = "MDP" => a.acts = b.acts)
RowsOK(m) ==
  /\ RowOK(m.init)
  /\ CASE m.k = "MDP" -> \A s \in 1..N(m) : \A a \in 1..Len(m.mat[s]) : RowOK(m.mat[s][a])
       [] m.k = "CTMC" -> \A s \in 1..N(m) : \A u \in 1..N(m) : IsFin(m.mat[s][u]) /\ m.mat[s][u][1] >= 0
       [] OTHER -> \A s \in 1..N(m) : RowOK(m.mat[s])
  /\ (m.k = "HMM" => \A s \in 1..N(m) : RowOK(m.out[s]))
=============================================================================
