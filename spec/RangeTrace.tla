----------------------------- MODULE RangeTrace -----------------------------
(* Integer ranges, forward and backward: size, membership, iteration order, largest element.      *)
EXTENDS TraceBase
RECURSIVE Down(_,_)
Down(a,b) == IF a <= b THEN << >> ELSE <<a>> \o Down(a-1,b)
Elts(a,b) == IF a <= b THEN [k \in 1..(b-a) |-> a + k - 1] ELSE Down(a,b)
\* the elements in iteration order, by constructor; flip reverses a forward range
Rev(q) == [k \in 1..Len(q) |-> q[Len(q)+1-k]]
Exp(how,a,b) == CASE how = "open" -> Elts(a,b)
                  [] how = "close" -> IF a <= b THEN Elts(a,b+1) ELSE Elts(a,b-1)
                  [] how = "openInc" -> IF a <= b THEN Elts(a,b) ELSE << >>
                  [] how = "closeInc" -> IF a <= b THEN Elts(a,b+1) ELSE << >>
                  [] how = "flip" -> Rev(Elts(a,b))
E(f,t,up) == [f |-> f, t |-> t, up |-> up]
Ends(how,a,b) == CASE how = "open" -> E(a,b,a <= b)
                   [] how = "close" -> IF a <= b THEN E(a,b+1,TRUE) ELSE E(a,b-1,FALSE)
                   [] how = "openInc" -> IF a <= b THEN E(a,b,TRUE) ELSE E(a,a,TRUE)
                   [] how = "closeInc" -> IF a <= b THEN E(a,b+1,TRUE) ELSE E(a,a,TRUE)
                   [] how = "flip" -> E(b-1,a-1,FALSE)
W(n,c) == Want("range",n,c)
Next == \/ Is("case")
        \/ /\ Is("range")
           /\ \E q \in { IF T.how = "flip" /\ T.a > T.b THEN T.c ELSE Exp(T.how,T.a,T.b) } :
                /\ W("elements in iteration order", T.c = q)
                /\ W("size", T.n = Len(q))
                /\ W("membership", SetOf(T.in) = SetOf(q) \cap (-110..110))
                /\ W("largest is not an upper bound", \A x \in SetOf(q) : x <= T.l)
                /\ W("the ends do not describe the range", T.how = "open" => T.f = T.a /\ T.t = T.b)
        \/ /\ Is("far")     \* far ends: first element, one past the last, by constructor; d: direction
           /\ \E r \in { Ends(T.how,T.a,T.b) } :
                \/ T.how = "flip" /\ T.a > T.b
                \/ /\ W("size", T.n = IF r.up THEN r.t - r.f ELSE r.f - r.t)
                   /\ W("membership", \A i \in 1..Len(T.x) : (T.in[i] = 1) <=> IF r.up THEN r.f <= T.x[i] /\ T.x[i] < r.t ELSE r.t < T.x[i] /\ T.x[i] <= r.f)
                   /\ W("first element", T.first = IF r.f = r.t THEN 2000000000 ELSE r.f)
Spec == l = 1 /\ [][Next]_l
=============================================================================
