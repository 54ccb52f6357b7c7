------------------------------- MODULE PrioQ -------------------------------
(* Priority queue with locations.  h: id -> key of the elements in the queue.  A bulk load        *)
(* (insert without ordering) must be followed by Build before elements are extracted: loose says  *)
(* that this is pending.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES h, mn
PInit == h = << >> /\ mn = TRUE
Before(a,b) == IF mn THEN a < b ELSE a > b     \* a must be extracted strictly before b
IsFirst(id) == id \in DOMAIN h /\ \A j \in DOMAIN h : ~Before(h[j],h[id])
Drop(f,id) == [j \in DOMAIN f \ {id} |-> f[j]]
PStart(m) == h' = << >> /\ mn' = m
PIns(id,k) == id \notin DOMAIN h /\ h' = (id :> k) @@ h /\ UNCHANGED mn
PExt(id) == IsFirst(id) /\ h' = Drop(h,id) /\ UNCHANGED mn
\* several at once: the new elements f; the extraction of s[1], s[2], ...
PInsAll(f) == DOMAIN f \cap DOMAIN h = {} /\ h' = f @@ h /\ UNCHANGED mn
InOrder(s) == /\ \A i \in 1..Len(s)-1 : ~Before(h[s[i+1]],h[s[i]])
              /\ s # << >> => \A j \in DOMAIN h \ {s[i] : i \in 1..Len(s)} : ~Before(h[j],h[s[Len(s)]])
PExtAll(s) == InOrder(s) /\ h' = [j \in DOMAIN h \ {s[i] : i \in 1..Len(s)} |-> h[j]] /\ UNCHANGED mn
PDec(id) == id \in DOMAIN h /\ h' = [h EXCEPT ![id] = @ - 1] /\ UNCHANGED mn
PRem(id) == id \in DOMAIN h /\ h' = Drop(h,id) /\ UNCHANGED mn
=============================================================================
