------------------------------ MODULE ListTrace -----------------------------
(* Validation of recorded histories of lists: the operations are those of    *)
(* Lists and every recorded answer must be the one it prescribes.            *)
EXTENDS Lists, Json, IOUtils
VARIABLES cur, l, verdict
tvars == <<cur, l, verdict, lvars>>
Log == ndJsonDeserialize(IOEnv.TRACE)
O == Log[cur]
T == ListTable[O.list]

Init == /\ cur \in 1..Len(Log) /\ l = 1 /\ verdict = "none"
        /\ items = Log[cur].has /\ pos = [k \in 0..2 |-> IF k = 0 THEN 0 ELSE Off]
Good == O.out = "ok" /\ l <= Len(O.res) /\ O.res[l] = Answer(O.ops[l], T.lim)
Step == /\ verdict = "none" /\ l <= Len(O.ops) /\ Good
        /\ Do(O.ops[l], T.lim)
        /\ l' = l + 1 /\ UNCHANGED <<cur, verdict>>
End == /\ verdict = "none" /\ (l > Len(O.ops) \/ ~Good)
       /\ verdict' = IF l > Len(O.ops) THEN "" ELSE IF O.out # "ok" THEN O.out ELSE T.name \o ": operation " \o ToString(l) \o " " \o O.ops[l].o
       /\ PrintT("V|" \o ToString(O.id) \o "|" \o verdict')
       /\ UNCHANGED <<cur, l, lvars>>
Next == Step \/ End
Spec == Init /\ [][Next]_tvars
Bounded == Len(items) <= T.lim
=============================================================================
