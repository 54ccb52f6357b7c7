----------------------------- MODULE DictTrace -----------------------------
EXTENDS Dict, TraceBase
Init == DInit /\ l = 1
Size == Want("table","size", T.n = Cardinality(DOMAIN d'))
Count(s,v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Next == \/ Is("case") /\ DClear
        \/ Is("put") /\ DPut(T.k,T.v) /\ Size
        \/ Is("get") /\ Want("table","a key that was inserted is not found, or one that was not is", T.f <=> T.k \in DOMAIN d)
                     /\ Want("table","wrong value", T.k \in DOMAIN d => T.v = d[T.k]) /\ UNCHANGED d /\ Size
        \/ Is("all") /\ Want("table","enumeration", Len(T.c) = Cardinality(DOMAIN d) /\
                             \A v \in SetOf(T.c) : Count(T.c,v) = Cardinality({k \in DOMAIN d : d[k] = v})) /\ UNCHANGED d /\ Size
        \/ Is("puts") /\ DPutAll(T.k,T.v) /\ Size
        \/ Is("gets") /\ Want("table","a key that was inserted is not found, or one that was not is", \A i \in 1..Len(T.k) : (T.f[i] = 1) <=> T.k[i] \in DOMAIN d)
                      /\ Want("table","wrong value", \A i \in 1..Len(T.k) : T.k[i] \in DOMAIN d => T.v[i] = d[T.k[i]]) /\ UNCHANGED d /\ Size
        \/ Is("clear") /\ DClear /\ Size
Spec == Init /\ [][Next]_<<d,l>>
=============================================================================
