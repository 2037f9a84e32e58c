---------------------------- MODULE HistoryTrace ----------------------------
(* Histories of reading reports.  Of each report the log gives what a fresh  *)
(* parse of its text alone answers (ref); in every history, whatever was     *)
(* parsed, asked, iterated and left unfinished before, also by other         *)
(* threads, the answers are those.  Iterators advance on their own.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES cur, l, open, verdict
\* open: iterator -> [r, list, done]
vars == <<cur, l, open, verdict>>
Log == ndJsonDeserialize(IOEnv.TRACE)
O == Log[cur]
E == O.events[l]
Ref(r) == O.refs[r]

Init == cur \in 1..Len(Log) /\ l = 1 /\ open = <<>> /\ verdict = "none"

Prescribed ==
  CASE E.e = "parse" -> Ref(E.r).out
    [] E.e = "ask"   -> Ref(E.r).answers[E.path]
    [] E.e = "dump"  -> Ref(E.r).whole
    [] E.e \in {"iter", "spoil"} -> "ok"
    [] E.e = "step"  -> LET it == open[E.k]  its == Ref(it.r).lists[it.list] IN IF it.done < Len(its) THEN its[it.done + 1] ELSE "Stop"
Running == verdict = "none" /\ l <= Len(O.events)
Good == E.d = Prescribed
Step == /\ Running /\ Good
        /\ open' = CASE E.e = "iter" -> Append(open, [r |-> E.r, list |-> E.path, done |-> 0])
                     [] E.e = "step" -> [open EXCEPT ![E.k].done = @ + 1]
                     [] OTHER -> open
        /\ l' = l + 1 /\ UNCHANGED <<cur, verdict>>
End == /\ verdict = "none" /\ (IF l > Len(O.events) THEN TRUE ELSE ~Good)
       /\ verdict' = IF l <= Len(O.events) THEN "event " \o ToString(l) \o ": " \o E.e \o " " \o E.path
                     ELSE IF O.out # "ok" THEN O.out
                     ELSE IF O.printed # "" THEN "printed " \o O.printed ELSE ""
       /\ PrintT("V|" \o ToString(O.id) \o "|" \o verdict')
       /\ UNCHANGED <<cur, l, open>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
