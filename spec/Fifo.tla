-------------------------------- MODULE Fifo --------------------------------
(* First-in first-out queue with retraction.  The capacity is not part of the specification: a    *)
(* queue never loses or reorders elements when it grows.  Retraction removes one element; it may  *)
(* change the order of the others (the implementation moves the front element into the hole).     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE q
Elems == { q[i] : i \in 1..Len(q) }
Set(s) == {s[i] : i \in 1..Len(s)}
SameBag(s,t) == Len(s) = Len(t) /\ IF Cardinality(Set(s)) = Len(s) THEN Set(s) = Set(t) ELSE \A x \in {s[i] : i \in 1..Len(s)} \cup {t[i] : i \in 1..Len(t)} :
                  Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
Without(s,v) == LET k == CHOOSE i \in 1..Len(s) : s[i] = v IN SubSeq(s,1,k-1) \o SubSeq(s,k+1,Len(s))
Front == IF q = << >> THEN 0 ELSE q[1]        \* 0: the default element
FEnq(v) == q' = Append(q,v)
FDeq == q' = IF q = << >> THEN q ELSE Tail(q)
FRetract(v,c) == /\ IF v \in Elems THEN SameBag(c,Without(q,v)) ELSE c = q
                 /\ q' = c
FClear == q' = << >>
FInit == q = << >>
=============================================================================
