----------------------------- MODULE ArrayTrace -----------------------------
(* Value arrays (FArray): registers a[1..N] of sequences with value semantics.                    *)
EXTENDS TraceBase
VARIABLE a
Init == a = << >> /\ l = 1
W(n,c) == Want("array",n,c)
Now == W("content", T.c = a'[T.i] /\ T.n = Len(a'[T.i]))
Put(x) == a' = [a EXCEPT ![T.i] = x] /\ Now
Next == \/ Is("case") /\ a' = [i \in 1..T.N |-> << >>]
        \/ Is("fill") /\ Put([k \in 1..T.m |-> T.x])
        \/ Is("init") /\ Put(T.v)
        \/ Is("set") /\ Put([a[T.i] EXCEPT ![T.at+1] = T.x])
        \/ Is("copy") /\ Put(a[T.j])
        \/ Is("move") /\ a' = [a EXCEPT ![T.i] = a[T.j], ![T.j] = << >>] /\ Now /\ W("moved-from array is not empty", T.nj = 0)
        \/ Is("eq") /\ Want("eq","equality", T.eq <=> a[T.i] = a[T.j]) /\ Want("eq","equal arrays with different hashes", a[T.i] = a[T.j] => T.h) /\ UNCHANGED a
        \/ Is("veq") /\ Want("eq","equal vectors with different hashes", a[T.i] = a[T.j] => T.h) /\ UNCHANGED a
        \/ Is("get") /\ W("element", T.r = a[T.i][T.at+1]) /\ UNCHANGED a
        \/ Is("snap") /\ W("content", T.c = a[T.i]) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a,l>>
=============================================================================
