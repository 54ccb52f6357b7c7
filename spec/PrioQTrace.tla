---------------------------- MODULE PrioQTrace ----------------------------
EXTENDS PrioQ, TraceBase
Init == PInit /\ l = 1
Size == Want("heap","size", T.n = Cardinality(DOMAIN h'))
Has(id,k) == id \in DOMAIN h /\ h[id] = k
Next == \/ Is("case") /\ PStart(T.min)
        \/ Is("ins") /\ PIns(T.id,T.key) /\ Size
        \/ Is("build") /\ UNCHANGED <<h,mn>> /\ Size
        \/ Is("ext") /\ Want("heap","extracted an element that is not in the queue", Has(T.id,T.key))
                     /\ Want("heap","extracted element is not the first", IsFirst(T.id))
                     /\ PExt(T.id) /\ Size
        \/ Is("dec") /\ PDec(T.id) /\ Want("heap","decreased another element", T.r = h'[T.id])
        \/ Is("rem") /\ Want("heap","removed another element", T.rid = T.id /\ Has(T.id,T.key)) /\ PRem(T.id) /\ Size
        \/ Is("val") /\ Want("heap","location holds another element", T.rid = T.id /\ Has(T.id,T.key)) /\ UNCHANGED <<h,mn>>
        \/ Is("ids") /\ Want("heap","positions do not list the elements", SetOf(T.c) = DOMAIN h /\ Distinct(T.c) /\ (T.e <=> DOMAIN h = {})) /\ UNCHANGED <<h,mn>>
        \/ Is("inss") /\ PInsAll([id \in SetOf(T.id) |-> T.key[id - T.id[1] + 1]]) /\ Size
        \/ Is("vals") /\ Want("heap","locations hold other elements", T.bad = << >>) /\ UNCHANGED <<h,mn>>
        \/ Is("exts") /\ Want("heap","extracted an element that is not in the queue", Distinct(T.id) /\ \A i \in 1..Len(T.id) : Has(T.id[i],T.key[i]))
                      /\ Want("heap","extracted elements are not the first ones", InOrder(T.id))
                      /\ PExtAll(T.id) /\ Size
        \/ Is("clear") /\ PStart(mn) /\ Size
Spec == Init /\ [][Next]_<<h,mn,l>>
=============================================================================
