------------------------------- MODULE Vector -------------------------------
(* Growable vectors on a pool, in registers v[1..N].  Assigning through the proxy v[at] = x makes  *)
(* at the last position (the implementation uses it to append).  Removal moves the last element.  *)
EXTENDS Integers, Sequences
VARIABLE v
VInit(n) == v = [i \in 1..n |-> << >>]
Put(i,x) == v' = [v EXCEPT ![i] = x]
RemoveAt(q,at) == LET n == Len(q) IN      \* at counts from 0
   IF at = n-1 THEN SubSeq(q,1,n-1) ELSE [SubSeq(q,1,n-1) EXCEPT ![at+1] = q[n]]
=============================================================================
