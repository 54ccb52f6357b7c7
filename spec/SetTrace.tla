------------------------------ MODULE SetTrace ------------------------------
EXTENDS SetAlg, TraceBase
Init == SInit(4) /\ l = 1
Same(x,c) == SetOf(c) = x /\ Ascending(c)
Bits(v) == {63 - b : b \in v}
Mut == /\ l <= Len(Trace) /\ T.ev \in Mutators /\ l' = l + 1
       /\ \E x \in {Eval(T.ev,T)} :
            /\ Want("set","wrong elements", Same(x,T.c))
            /\ Want("set","size", T.n = Cardinality(x) /\ (T.e <=> x = {}))
            /\ T.ev = "copyeq" => Want("eq","a copy is not equal to the original", T.eq)
            /\ IF T.ev = "move" THEN Want("set","moved-from set is not empty", T.cj = << >>) /\ s' = [s EXCEPT ![T.i] = x, ![T.j] = {}]
               ELSE Assign(T.i,x)
Ask(cond,tag,name) == Want(tag,name,cond) /\ UNCHANGED s
Next == \/ Is("case") /\ s' = [i \in 1..T.N |-> {}]
        \/ Mut
        \/ Is("has") /\ Ask(T.r <=> T.x \in s[T.i],"set","membership")
        \/ Is("eq") /\ Ask((T.eq <=> s[T.i] = s[T.j]) /\ T.ne = ~T.eq,"eq","equality") /\ Ask(s[T.i] = s[T.j] => T.h,"eq","equal sets with different hashes")
        \/ Is("minmax") /\ Ask(IF s[T.i] = {} THEN T.dmn /\ T.dmx ELSE T.mn = Min(s[T.i]) /\ T.mx = Max(s[T.i]),"set","minimum or maximum")
        \/ Is("agg") /\ \E x \in { {T3(y) : y \in {z \in s[T.i] : z % T.m = T.z}} } :
                          Ask((T.none <=> x = {}) /\ (x # {} => T.mn = Min(x) /\ T.mx = Max(x)) /\ T.sum = SumT(s[T.i]),"set","aggregate")
        \/ Is("str") /\ Ask(T.s = "{" \o Join(Sorted(s[T.i]),",",1) \o "}","set","printed form")
        \/ Is("last") /\ Ask(T.r = Max(s[T.i]),"set","largest element")
        \/ Is("snap") /\ Ask(Same(s[T.i],T.c),"set","elements")
        \/ Is("any") /\ Ask(T.r <=> \E y \in s[T.i] : y % T.m = 0,"set","member")
        \/ Is("fold") /\ Ask(T.r = Fold(LAMBDA a,y : (a*7 + y) % 1009, 1, Sorted(s[T.i])),"set","fold")
        \/ Is("sum") /\ Ask(T.r = SumT(s[T.i]),"set","sum")
        \/ Is("rev") /\ Ask(LET v == SetOf(T.v) IN /\ SetOf(T.a) = Bits(v) /\ SetOf(T.b) = Bits(v)
                                                  /\ SetOf(T.y) = {7 - b : b \in {z \in v : z < 8}},"set","bit reversal")
Spec == Init /\ [][Next]_<<s,l>>
=============================================================================
