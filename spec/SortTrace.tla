----------------------------- MODULE SortTrace -----------------------------
(* Sorting: the result is ordered and is the input, element for element, and nothing beyond it is *)
(* written.                                                                                       *)
EXTENDS TraceBase
Ordered(up,b) == \A i \in 1..Len(b)-1 : IF up THEN b[i] <= b[i+1] ELSE b[i] >= b[i+1]
IsPermutation(a,b,ids) == /\ Len(a) = Len(b) /\ Len(ids) = Len(a) /\ SetOf(ids) = 1..Len(a)
                          /\ \A i \in 1..Len(b) : b[i] = a[ids[i]]
Next == \/ Is("case")
        \/ Is("sort") /\ Want("sort","elements lost or duplicated", IsPermutation(T.a,T.b,T.ids))
                      /\ Want("sort","not ordered", Ordered(T.up,T.b))
                      /\ Want("sort","wrote past the end", T.guard)
Spec == l = 1 /\ [][Next]_l
=============================================================================
