---------------------------- MODULE VectorTrace ----------------------------
EXTENDS Vector, TraceBase
Init == VInit(3) /\ l = 1
W(n,c) == Want("vec",n,c)
Size == W("size", T.n = Len(v'[T.i]))
Next == \/ Is("case") /\ v' = [i \in 1..T.N |-> << >>]
        \/ Is("push") /\ Put(T.i,Append(v[T.i],T.x)) /\ Size /\ W("position of the new element", T.r = Len(v[T.i]))
        \/ Is("pop") /\ W("popped element is not the last", T.r = v[T.i][Len(v[T.i])]) /\ Put(T.i,SubSeq(v[T.i],1,Len(v[T.i])-1)) /\ Size
        \/ Is("set") /\ Put(T.i,Append(SubSeq(v[T.i],1,T.at),T.x)) /\ Size
        \/ Is("at") /\ Put(T.i,[v[T.i] EXCEPT ![T.at+1] = T.x]) /\ Size
        \/ Is("get") /\ W("element", T.r = v[T.i][T.at+1] /\ T.r2 = T.r /\ T.r3 = T.r) /\ UNCHANGED v
        \/ Is("rem") /\ Put(T.i,RemoveAt(v[T.i],T.at)) /\ Size /\ W("returned size", T.r = Len(v'[T.i]))
                     /\ W("element moved into the hole is not announced", T.cnt <= 1 /\ (T.at < Len(v'[T.i]) => T.cnt = 1 /\ T.y = v'[T.i][T.at+1]))
        \/ Is("copy") /\ Put(T.i,v[T.j]) /\ W("copy", T.c = v[T.j])
        \/ Is("move") /\ v' = [v EXCEPT ![T.i] = v[T.j], ![T.j] = << >>] /\ W("moved content", T.c = v[T.j] /\ T.nj = 0)
        \/ Is("pushs") /\ Put(T.i,v[T.i] \o T.x) /\ Size /\ W("position of the new elements", T.bad = 0)
        \/ Is("pops") /\ W("popped elements are not the last ones", \A k \in 1..Len(T.c) : T.c[k] = v[T.i][Len(v[T.i])+1-k]) /\ Put(T.i,SubSeq(v[T.i],1,Len(v[T.i])-Len(T.c))) /\ Size
        \/ Is("clear") /\ Put(T.i,<< >>) /\ Size
        \/ Is("str") /\ W("printed form", T.s = "[" \o Join(v[T.i],",",1) \o "]") /\ UNCHANGED v
        \/ Is("snap") /\ W("content", T.c = v[T.i]) /\ UNCHANGED v
Spec == Init /\ [][Next]_<<v,l>>
=============================================================================
