------------------------------- MODULE NodeSeq -------------------------------
(* Sequences of diagram nodes: the intrusive list (ANList) and the array with holes (NDArray).     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE ns
At(x) == CHOOSE i \in 1..Len(ns) : ns[i] = x
Holds(x) == \E i \in 1..Len(ns) : ns[i] = x
NPush(x) == ~Holds(x) /\ ns' = Append(ns,x)
NPushFront(x) == ~Holds(x) /\ ns' = <<x>> \o ns
NPop == ns # << >> /\ ns' = SubSeq(ns,1,Len(ns)-1)
NPopFront == ns # << >> /\ ns' = Tail(ns)
NRemove(x) == Holds(x) /\ ns' = SubSeq(ns,1,At(x)-1) \o SubSeq(ns,At(x)+1,Len(ns))
NCut(k) == ns' = SubSeq(ns,1,k)
=============================================================================
