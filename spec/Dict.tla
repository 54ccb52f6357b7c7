-------------------------------- MODULE Dict --------------------------------
(* Finite map from keys to values.  Keys are compared by ==: two keys that are equal are one key, *)
(* however they were built and whatever their hash.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE d
DInit == d = << >>
DPut(k,v) == d' = (k :> v) @@ d
DPutAll(ks,vs) ==    \* distinct keys
   d' = [k \in {ks[i] : i \in 1..Len(ks)} |-> vs[CHOOSE i \in 1..Len(ks) : ks[i] = k]] @@ d
DClear == d' = << >>
=============================================================================
