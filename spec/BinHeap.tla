------------------------------- MODULE BinHeap -------------------------------
(* The algorithm of Heap: a binary heap of locations that know their slot.  Refines PrioQ.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Keys, Bug      \* Bug: "none", "stale" (sendToRoot), "oneup" (refloat stops too early), "left" (heapify ignores the right child)
VARIABLES data,   \* sequence of ids
          key,    \* id -> key (of the ids in data)
          pos     \* id -> slot
vars == <<data,key,pos>>
Init == data = << >> /\ key = << >> /\ pos = << >>
Swap(h,a,b) == [ d |-> [h.d EXCEPT ![a] = h.d[b], ![b] = h.d[a]],
                 p |-> [h.p EXCEPT ![h.d[a]] = b, ![h.d[b]] = a] ]
Less(k,h,a,b) == k[h.d[a]] < k[h.d[b]]
Best(k,h,p) == LET l == 2*p r == 2*p+1
                   x == IF l <= Len(h.d) /\ Less(k,h,l,p) THEN l ELSE p
               IN IF Bug # "left" /\ r <= Len(h.d) /\ Less(k,h,r,x) THEN r ELSE x
RECURSIVE Down(_,_,_)
Down(k,h,p) == LET x == Best(k,h,p) IN IF x = p THEN h ELSE Down(k,Swap(h,p,x),x)
RECURSIVE Up(_,_,_)
Up(k,h,p) == IF p = 0 THEN h
             ELSE LET x == Best(k,h,p)
                      g == IF x = p THEN h ELSE Swap(h,p,x)
                  IN IF Bug = "oneup" /\ x # p THEN g ELSE Up(k,g,p \div 2)
RECURSIVE ToRoot(_,_)
ToRoot(h,p) == LET g == p \div 2 IN
               IF g = 0 THEN h
               ELSE LET s == Swap(h,p,g) IN ToRoot(IF Bug = "stale" THEN [s EXCEPT !.p[s.d[p]] = g] ELSE s, g)
H == [d |-> data, p |-> pos]
Set(h,k) == data' = h.d /\ pos' = [i \in {h.d[j] : j \in DOMAIN h.d} |-> h.p[i]] /\ key' = [i \in {h.d[j] : j \in DOMAIN h.d} |-> k[i]]
Insert(i,v) == /\ i \in Ids \ {data[j] : j \in DOMAIN data}
               /\ LET k == (i :> v) @@ key
                      h == [d |-> Append(data,i), p |-> (i :> Len(data)+1) @@ pos]
                  IN Set(Up(k,h,Len(data)+1),k)
\* remove the root
Pop(h) == LET n == Len(h.d) s == Swap(h,1,n)
          IN IF n = 1 THEN [d |-> << >>, p |-> h.p] ELSE Down(key,[d |-> SubSeq(s.d,1,n-1), p |-> s.p],1)
Extract == data # << >> /\ Set(Pop(H),key)
Remove(i) == i \in DOMAIN pos /\ Set(Pop(ToRoot(H,pos[i])),key)
Decrease(i) == /\ i \in DOMAIN key /\ key[i] - 1 \in Keys
               /\ LET k == [key EXCEPT ![i] = @ - 1] IN Set(Up(k,H,pos[i]),k)
Next == Extract \/ \E i \in Ids : Remove(i) \/ Decrease(i) \/ \E v \in Keys : Insert(i,v)
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Inv == /\ \A s \in 2..Len(data) : key[data[s]] >= key[data[s \div 2]]
       /\ \A s \in DOMAIN data : pos[data[s]] = s
P == INSTANCE PrioQ WITH h <- key, mn <- TRUE
PNext == \E i \in Ids : \/ P!PExt(i) \/ P!PDec(i) \/ P!PRem(i) \/ \E v \in Keys : P!PIns(i,v)
Refines == key = << >> /\ [][PNext]_key
\* Extract removes a first element, Remove(i) removes i
Exact == [][ /\ Extract => \E i \in DOMAIN key : P!PExt(i)
             /\ \A i \in DOMAIN key : Remove(i) => P!PRem(i) \/ Extract ]_vars
=============================================================================
