------------------------------- MODULE Shared -------------------------------
(* Components that live on one pool: vectors, heaps, maps (hash tables, diagram nodes) and raw    *)
(* blocks.  obj: id -> [t |-> kind, c |-> content].  An operation changes one component and no    *)
(* other, whatever memory it needs; releasing the pool to a mark ends exactly the components that *)
(* were created after it and leaves all others as they are.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES obj, marks      \* marks: sequence of sets of ids
SInit == obj = << >> /\ marks = << >>
Empty(t) == IF t = "blk" THEN 0 ELSE << >>
SNew(i,t) == i \notin DOMAIN obj /\ obj' = (i :> [t |-> t, c |-> Empty(t)]) @@ obj /\ UNCHANGED marks
SSet(i,c) == i \in DOMAIN obj /\ obj' = [obj EXCEPT ![i].c = c] /\ UNCHANGED marks
SMark == marks' = Append(marks, DOMAIN obj) /\ UNCHANGED obj
SRelease(m) == m \in DOMAIN marks /\ obj' = [i \in marks[m] |-> obj[i]] /\ marks' = SubSeq(marks,1,m-1)
=============================================================================
