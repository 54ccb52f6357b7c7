------------------------------ MODULE HashTab ------------------------------
(* The algorithm of Hashtable and LHashtable: chained buckets that are emptied all at once by      *)
(* changing a stamp; a bucket whose stamp is old counts as empty.  Refines Dict.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, M, MaxMagic, Bug  \* Bug: "none", "chain" (insertion keeps an old chain), "look" (lookup ignores the stamp), "dup" (insertion does not look for the key)
VARIABLES tab, mgc, magic, nbp
vars == <<tab,mgc,magic,nbp>>
B == 0..M-1
At(k) == k % M
Init == tab = [b \in B |-> << >>] /\ mgc = [b \in B |-> 0] /\ magic = 1 /\ nbp = 0
Chain(b) == IF mgc[b] = magic THEN tab[b] ELSE << >>
Head0(b) == IF Bug = "chain" THEN tab[b] ELSE Chain(b)
Hits(c,k) == { i \in 1..Len(c) : c[i][1] = k }
First(S) == CHOOSE i \in S : \A j \in S : i <= j
LookChain(b) == IF Bug = "look" THEN tab[b] ELSE Chain(b)
Insert(k,v) == \E b \in {At(k)} : \E c \in {Head0(b)} :
   IF Bug # "dup" /\ Hits(c,k) # {}
   THEN tab' = [tab EXCEPT ![b] = [c EXCEPT ![First(Hits(c,k))] = <<k,v>>]] /\ UNCHANGED <<mgc,magic,nbp>>
   ELSE /\ tab' = [tab EXCEPT ![b] = <<<<k,v>>>> \o c]
        /\ mgc' = [mgc EXCEPT ![b] = magic] /\ nbp' = nbp + 1 /\ UNCHANGED magic
Clear == magic < MaxMagic /\ magic' = magic + 1 /\ nbp' = 0 /\ UNCHANGED <<tab,mgc>>
Next == (\E k \in Keys, v \in Vals : Insert(k,v)) \/ Clear
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
\* what the table answers
Found(k) == Hits(LookChain(At(k)),k) # {}
Value(k) == LookChain(At(k))[First(Hits(LookChain(At(k)),k))][2]
Answers == [k \in {x \in Keys : Found(x)} |-> Value(k)]
All == UNION { { <<b,i>> : i \in 1..Len(Chain(b)) } : b \in B }
Inv == /\ nbp = Cardinality(DOMAIN Answers)
       /\ nbp = Cardinality(All)                             \* the enumeration
       /\ \A b \in B : \A i \in 1..Len(tab[b]) : At(tab[b][i][1]) = b
D == INSTANCE Dict WITH d <- Answers
DNext == (\E k \in Keys, v \in Vals : D!DPut(k,v)) \/ D!DClear
Refines == D!DInit /\ [][DNext]_Answers
=============================================================================
