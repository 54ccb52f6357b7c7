------------------------------- MODULE Memory -------------------------------
(* Ownership of memory.  own: the blocks [b,e) that are allocated and not yet released.  Every    *)
(* read or write of a component stays inside one block that it owns at that moment, and when the  *)
(* last object of a history is gone nothing is owned any more.  In the implementation the         *)
(* instrumented build watches the accesses (harness/poison.cpp extends this to the blocks of a    *)
(* Pool) and ends a history that breaks the rule with the event "crash"; "owned" reports by how   *)
(* much the memory that is owned grows when one history is repeated.                              *)
EXTENDS Integers, FiniteSets
VARIABLE own
Apart(x,y) == x.e <= y.b \/ y.e <= x.b
MInit       == own = {}
MAlloc(x)   == x.b < x.e /\ (\A y \in own : Apart(x,y)) /\ own' = own \cup {x}
MRelease(x) == x \in own /\ own' = own \ {x}
MAccess(b,e) == (\E x \in own : x.b <= b /\ e <= x.e) /\ UNCHANGED own
MEnd        == own = {} /\ UNCHANGED own
=============================================================================
