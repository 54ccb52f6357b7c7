--------------------------- MODULE PartitionTrace ---------------------------
EXTENDS Partition, TraceBase
Init == UInit /\ l = 1
W(n,c) == Want("uf",n,c)
Next == \/ Is("case") /\ rep' = << >>
        \/ Is("make") /\ UMake /\ T.r = Len(rep')
        \/ Is("merge") /\ W("the merged class is represented by a stranger", T.r \in 1..Len(rep) /\ rep[T.r] \in {rep[T.a],rep[T.b]}) /\ UMerge(T.a,T.b,T.r)
        \/ Is("find") /\ W("representative", T.r = rep[T.a]) /\ UNCHANGED rep
Spec == Init /\ [][Next]_<<rep,l>>
Inv == Stable
=============================================================================
