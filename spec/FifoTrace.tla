----------------------------- MODULE FifoTrace -----------------------------
EXTENDS Fifo, TraceBase
Init == FInit /\ l = 1
Size == Want("queue","size", T.n = Len(q'))
FirstDiv(m) == LET s == {i \in 1..Len(q) : q[i] % m = 0} IN IF s = {} THEN 0 ELSE q[Min(s)]
Next == \/ Is("case") /\ FClear
        \/ Is("enq") /\ FEnq(T.v) /\ Size
        \/ Is("deq") /\ Want("queue","dequeued element is not the oldest", T.r = Front) /\ FDeq /\ Size
        \/ Is("peek") /\ Want("queue","peek", T.r = Front /\ (T.e <=> q = << >>)) /\ UNCHANGED q /\ Size
        \/ Is("val") /\ Want("queue","the location holds another element", T.r = T.v) /\ UNCHANGED q
        \/ Is("retract") /\ Want("queue","retraction reported wrongly", T.found <=> T.v \in Elems)
                         /\ Want("queue","retraction lost, duplicated or invented an element",
                                 IF T.v \in Elems THEN SameBag(T.c,Without(q,T.v)) ELSE T.c = q)
                         /\ FRetract(T.v,T.c)
        \/ Is("fold") /\ Want("queue","fold does not see the elements from the newest to the oldest", T.r = FirstDiv(T.m)) /\ UNCHANGED q
        \/ Is("dump") /\ Want("queue","traversal", T.c = q) /\ UNCHANGED q
        \/ Is("enqs") /\ q' = q \o [i \in 1..(T.hi-T.lo+1) |-> T.lo+i-1] /\ Size
        \/ Is("vals") /\ Want("queue","locations hold other elements", T.bad = << >>) /\ UNCHANGED q
        \/ Is("deqs") /\ Want("queue","dequeued elements are not the oldest", Len(T.c) <= Len(q) /\ T.c = SubSeq(q,1,Len(T.c))) /\ q' = SubSeq(q,Len(T.c)+1,Len(q)) /\ Size
        \/ Is("clear") /\ FClear /\ Size
Spec == Init /\ [][Next]_<<q,l>>
=============================================================================
