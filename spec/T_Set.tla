------------------------------- MODULE T_Set -------------------------------
(* Trace specification of Set histories.                                      *)
EXTENDS TraceSet, TraceBase
ShapeKind(sh) == \* sh: shape of the first trace with two elements: "timed", "vectors", "labels"
  CASE sh = "timed" -> 4 [] sh = "vectors" -> 3 [] OTHER -> 0
Unch(ev,o,allowed) == F(~Changed(ev,o,allowed), "modified-other")
Raised(ev) == F(ev.exc = "", "raised")
Elems(s) == { s[i] : i \in 1..Len(s) }
NoDup(s) == Cardinality(Elems(s)) = Len(s)

SetFails(ev,o) ==
  CASE ev.op = "set_new" ->   \* from the list ev.lst of trace keys; ev.t: requested kind or -1
        IF ev.exc # "" THEN {"raised"}
        ELSE LET s == PostOf(ev,ev.r)
             IN F(RepOK(s.ms), "duplicate-entry") \cup F(BagOf(s.ms) = BagOfList(ev.lst), "multiset")
                \cup F(s.t = (IF Len(ev.lst) = 0 \/ ev.t # -1 THEN ev.t ELSE ShapeKind(ev.shape)), "kind")
                \cup Unch(ev,o,{ev.r})
    [] ev.op = "set_add" ->
        LET a == o[ev.r]  b == o[ev.s]
        IN IF a.t # b.t THEN F(ev.exc = "TypeError", "accepts-other-kind") \cup Unch(ev,o,{})
           ELSE IF ev.exc # "" THEN {"raised"}
           ELSE LET s == PostOf(ev,ev.r)
                IN F(RepOK(s.ms), "duplicate-entry") \cup F(BagOf(s.ms) = BagSum(BagOf(a.ms),BagOf(b.ms)), "multiset")
                   \cup F(s.t = a.t, "kind") \cup Unch(ev,o,{ev.r})
    [] ev.op = "set_sort" ->
        IF ev.exc # "" THEN {"raised"}
        ELSE F(BagOf(PostOf(ev,ev.r).ms) = BagOf(o[ev.r].ms) /\ RepOK(PostOf(ev,ev.r).ms), "multiset")
             \cup F(PostOf(ev,ev.r).t = o[ev.r].t, "kind") \cup Unch(ev,o,{ev.r})
    [] ev.op \in {"set_reload","set_copy"} ->   \* save o[r] and load it as ev.q; build ev.q from the traces and multiplicities of o[r]
        IF ev.exc # "" THEN {"raised"}
        ELSE LET s == PostOf(ev,ev.q)
             IN F(BagOf(s.ms) = BagOf(o[ev.r].ms) /\ RepOK(s.ms), "multiset") \cup F(s.t = o[ev.r].t, "kind")
                \cup Unch(ev,o,{ev.q})
    [] ev.op = "set_list" ->
        IF ev.exc # "" THEN {"raised"}
        ELSE F(BagOfList(ev.res) = BagOf(o[ev.r].ms), "listing") \cup Unch(ev,o,{})
    [] ev.op = "set_eq" ->
        IF ev.exc # "" THEN {"raised"}
        ELSE F(ev.res = Same(o[ev.r],o[ev.s]), "equality") \cup Unch(ev,o,{})
    [] ev.op = "set_alphabet" ->   \* ev.res; expected from the traces
        IF ev.exc # "" THEN {"raised"}
        ELSE LET ms == o[ev.r].ms  t == o[ev.r].t
                 labs == UNION { LET tr == ms[i].tr IN IF t \in {1,4} THEN { tr[j] : j \in {x \in 1..Len(tr) : x % 2 = 1} }
                                                       ELSE { tr[j] : j \in 1..Len(tr) } : i \in 1..Len(ms) }
             IN IF t = 3 THEN F(ev.res = << >>, "alphabet")
                ELSE F(Elems(ev.res) = labs /\ NoDup(ev.res), "alphabet") \cup Unch(ev,o,{})
    [] ev.op = "set_actions" ->
        IF ev.exc # "" THEN {"raised"}
        ELSE LET ms == o[ev.r].ms
                 acts == UNION { { ms[i].tr[j] : j \in {x \in 1..Len(ms[i].tr) : x % 2 = 0} } : i \in 1..Len(ms) }
                 labs == UNION { { ms[i].tr[j] : j \in {x \in 1..Len(ms[i].tr) : x % 2 = 1} } : i \in 1..Len(ms) }
             IN F(Elems(ev.acts) = acts /\ NoDup(ev.acts), "actions") \cup F(Elems(ev.res) = labs /\ NoDup(ev.res), "alphabet")
                \cup Unch(ev,o,{})

Next == Consume(SetFails)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
