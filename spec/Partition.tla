------------------------------ MODULE Partition ------------------------------
(* Disjoint sets over elements 1..n.  rep: representative of each element.  Which member of the    *)
(* merged class represents it is the implementation's choice.                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE rep
UInit == rep = << >>
UMake == rep' = Append(rep,Len(rep)+1)
UMerge(a,b,r) == /\ rep[r] \in {rep[a],rep[b]}
                 /\ rep' = [x \in 1..Len(rep) |-> IF rep[x] \in {rep[a],rep[b]} THEN r ELSE rep[x]]
Stable == \A x \in 1..Len(rep) : rep[rep[x]] = rep[x]
=============================================================================
