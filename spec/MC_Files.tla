------------------------------ MODULE MC_Files ------------------------------
(* Design model of persistence: two models in memory, two files.  A model is  *)
(* a version number here.  Complete histories are replayed on the real code.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT DEPTH
VARIABLES mem, file, got, clock, hist
vars == << mem, file, got, clock, hist >>
I == {1,2}
Init == mem = << 1, 2 >> /\ file = << 0, 0 >> /\ got = << >> /\ clock = 2 /\ hist = << >>
Act(op,i,f) == hist' = Append(hist, [op |-> op, m |-> i, f |-> f])
Save(i,f) == file' = [file EXCEPT ![f] = mem[i]] /\ UNCHANGED << mem, got, clock >> /\ Act("save",i,f)
Load(f) == file[f] # 0 /\ got' = Append(got, file[f]) /\ UNCHANGED << mem, file, clock >> /\ Act("load",0,f)
Change(i) == clock' = clock + 1 /\ mem' = [mem EXCEPT ![i] = clock + 1] /\ UNCHANGED << file, got >> /\ Act("change",i,0)
Next == Len(hist) < DEPTH /\ \E i \in I : Change(i) \/ Load(i) \/ \E f \in I : Save(i,f)
Spec == Init /\ [][Next]_vars
\* a file holds what was saved last, whatever happened to the model since: re-execute the history
RECURSIVE LastSave(_,_)
LastSave(k,f) == IF k = 0 THEN 0 ELSE IF hist[k].op = "save" /\ hist[k].f = f THEN k ELSE LastSave(k-1,f)
RECURSIVE VersionAt(_,_)
VersionAt(k,i) == IF k = 0 THEN i ELSE IF hist[k].op = "change" /\ hist[k].m = i
                  THEN 2 + Len(SelectSeq(SubSeq(hist,1,k), LAMBDA h : h.op = "change")) ELSE VersionAt(k-1,i)
Right == \A f \in I : LET k == LastSave(Len(hist),f) IN file[f] = IF k = 0 THEN 0 ELSE VersionAt(k,hist[k].m)
Emit == Len(hist) < DEPTH \/ (\A k \in 1..Len(hist) : hist[k].op # "load") \/ PrintT("GEN " \o ToJson(hist))
=============================================================================
