------------------------------- MODULE MCLists ------------------------------
(* Every history of a small list and two iterators.                          *)
EXTENDS Lists
VARIABLE seen   \* what each iterator has yielded
Limit == 3
Ops == {[o |-> "iter", i |-> k] : k \in 1..2} \cup {[o |-> "next", i |-> k] : k \in 1..2} \cup {[o |-> "drop", i |-> k] : k \in 1..2}
       \cup {[o |-> "idx", i |-> k] : k \in -4..4} \cup {[o |-> "add", i |-> 0, c |-> k] : k \in {"a", "b"}}
       \cup {[o |-> x, i |-> 0] : x \in {"all", "codes", "items", "len", "text", "own"}}
Init == items \in UNION {[1..k -> {"a", "b"}] : k \in 0..Limit} /\ pos = [k \in 0..2 |-> IF k = 0 THEN 0 ELSE Off] /\ seen = [k \in 0..2 |-> <<>>]
Next == \E op \in Ops :
          /\ Do(op, Limit)
          /\ seen' = CASE op.o \in {"iter", "drop"} -> [seen EXCEPT ![op.i] = <<>>]
                       [] op.o \in {"next", "own"} /\ Answer(op, Limit) # <<"Stop">> -> [seen EXCEPT ![op.i] = @ \o Answer(op, Limit)]
                       [] op.o = "own" -> [seen EXCEPT ![0] = <<>>]
                       [] OTHER -> seen
Bounded == Len(items) <= Limit
Yields == \A k \in 0..2 : pos[k] # Off => seen[k] = SubSeq(items, 1, pos[k])
Stops == \A k \in 1..2 : pos[k] # Off /\ Answer([o |-> "next", i |-> k], Limit) = <<"Stop">> => seen[k] = items
Agree == /\ Answer([o |-> "len"], Limit) = <<ToString(Len(items))>>
         /\ \A k \in 0..(Len(items) - 1) : Answer([o |-> "idx", i |-> k], Limit) = <<items[k + 1]>>
         /\ \A k \in 1..Len(items) : Answer([o |-> "idx", i |-> -k], Limit) = Answer([o |-> "idx", i |-> Len(items) - k], Limit)
\* an iterator moves only by its own operations, the list only by add
Frame == [][\A op \in Ops : Do(op, Limit) => (\A k \in 0..2 : op.o \notin {"iter", "next", "drop", "own"} \/ op.i # k => pos'[k] = pos[k])
            /\ (op.o # "add" => items' = items)]_<<lvars, seen>>
Spec == Init /\ [][Next]_<<lvars, seen>>
=============================================================================
