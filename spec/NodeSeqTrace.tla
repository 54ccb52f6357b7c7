---------------------------- MODULE NodeSeqTrace ----------------------------
EXTENDS NodeSeq, TraceBase
VARIABLE bound
Init == ns = << >> /\ bound = << >> /\ l = 1
W(n,c) == Want("list",n,c)
Seen == IF "o" \in DOMAIN T THEN T.o ELSE TRUE      \* the content was read after the operation
Now == W("size", T.n = Len(ns')) /\ W("content", Seen => T.c = ns')
Next == \/ Is("case") /\ ns' = << >> /\ bound' = IF T.kind = "array" THEN T.bound ELSE << >>
        \/ UNCHANGED bound /\
           \/ Is("push") /\ NPush(T.x) /\ Now
           \/ Is("pushs") /\ ns' = ns \o T.x /\ W("size", T.n = Len(ns'))
           \/ Is("pop") /\ W("last", T.r = ns[Len(ns)]) /\ NPop /\ Now
           \/ Is("popfront") /\ W("first", T.r \in {-1,ns[1]}) /\ NPopFront /\ Now
           \/ Is("pushfront") /\ NPushFront(T.x) /\ Now
           \/ Is("remove") /\ NRemove(T.x) /\ Now
           \/ Is("erase") /\ NRemove(T.x) /\ Now /\ W("iterator after erase", T.r = IF At(T.x) = Len(ns) THEN 0 ELSE ns[At(T.x)+1])
           \/ Is("has") /\ W("membership", T.r <=> Holds(T.x)) /\ W("ends", ns # << >> => T.f = ns[1] /\ T.b = ns[Len(ns)]) /\ UNCHANGED ns
           \/ Is("sorted") /\ W("sorting lost or duplicated a node", Len(T.c) = Len(ns) /\ SetOf(T.c) = SetOf(ns))
                           /\ W("not sorted", \A i \in 1..Len(T.c)-1 : bound[T.c[i]] <= bound[T.c[i+1]])
                           /\ ns' = T.c /\ W("size",T.n = Len(ns))
           \/ Is("cut") /\ NCut(T.at) /\ Now
           \/ Is("rev") /\ W("backward traversal", T.c = [i \in 1..Len(ns) |-> ns[Len(ns)+1-i]]) /\ UNCHANGED ns /\ W("size", T.n = Len(ns))
           \/ Is("clear") /\ ns' = << >> /\ Now
Spec == Init /\ [][Next]_<<ns,bound,l>>
=============================================================================
