---------------------------- MODULE SharedTrace ----------------------------
EXTENDS Shared, TraceBase
Init == SInit /\ l = 1
W(n,c) == Want("mem",n,c)
C == obj[T.i].c
First(h,id) == \A j \in DOMAIN h : h[id] <= h[j]
Next == \/ Is("case") /\ obj' = << >> /\ marks' = << >>
        \/ Is("new") /\ SNew(T.i,T.t)
        \/ Is("push") /\ SSet(T.i,Append(C,T.x)) /\ W("size of a vector", T.n = Len(C)+1)
        \/ Is("pop") /\ W("element of a vector", T.r = C[Len(C)]) /\ SSet(T.i,SubSeq(C,1,Len(C)-1)) /\ W("size of a vector", T.n = Len(C)-1)
        \/ Is("at") /\ SSet(T.i,[C EXCEPT ![T.at+1] = T.x]) /\ W("size of a vector", T.n = Len(C))
        \/ Is("vsnap") /\ W("content of a vector", T.c = C) /\ UNCHANGED <<obj,marks>>
        \/ Is("hins") /\ SSet(T.i,(T.id :> T.key) @@ C) /\ W("size of a heap", T.n = Cardinality(DOMAIN C)+1)
        \/ Is("hext") /\ W("extracted element of a heap", T.id \in DOMAIN C /\ C[T.id] = T.key /\ First(C,T.id))
                      /\ SSet(T.i,[j \in DOMAIN C \ {T.id} |-> C[j]]) /\ W("size of a heap", T.n = Cardinality(DOMAIN C)-1)
        \/ Is("hdec") /\ W("decreased element of a heap", T.id \in DOMAIN C /\ T.r = C[T.id]-1) /\ SSet(T.i,[C EXCEPT ![T.id] = @-1])
        \/ Is("hsnap") /\ W("content of a heap", SetOf(T.id) = DOMAIN C /\ T.n = Len(T.id) /\ \A k \in 1..Len(T.id) : C[T.id[k]] = T.key[k]) /\ UNCHANGED <<obj,marks>>
        \/ Is("put") /\ SSet(T.i,(T.k :> T.v) @@ C) /\ W("size of a map", T.n = Cardinality(DOMAIN C \cup {T.k}))
        \/ Is("get") /\ W("entry of a map", (T.f <=> T.k \in DOMAIN C) /\ (T.f => T.v = C[T.k])) /\ UNCHANGED <<obj,marks>>
        \/ Is("write") /\ SSet(T.i,T.x)
        \/ Is("read") /\ W("content of a block", T.bad = 0 /\ T.r = C) /\ UNCHANGED <<obj,marks>>
        \/ Is("mark") /\ SMark
        \/ Is("release") /\ SRelease(T.m)
Spec == Init /\ [][Next]_<<obj,marks,l>>
=============================================================================
