---------------------------- MODULE MatrixTrace ----------------------------
(* Two matrices of the same dimensions: a cell changes only when it is assigned.                  *)
EXTENDS TraceBase
VARIABLES m, dims, out        \* out: the cells printed so far
Init == m = << >> /\ dims = << >> /\ out = {} /\ l = 1
W(n,c) == Want("matrix",n,c)
RECURSIVE Off(_,_)
Off(p,k) == IF k = 0 THEN 0 ELSE Off(p,k-1) * dims[k] + p[k]     \* a numbering of the cells
RECURSIVE Prod(_,_)
Prod(d,k) == IF k = 0 THEN 1 ELSE d[k] * Prod(d,k-1)
Cell(p) == Off(p,Len(dims)) + 1
Next == \/ Is("case") /\ dims' = T.dims /\ m' = << >> /\ out' = {}
        \/ Is("line") /\ W("printed cell", Len(T.q) = Len(dims)+1 /\ (\A k \in 1..Len(dims) : T.q[k] < dims[k])
                                            /\ Cell(T.q) \notin out /\ T.q[Len(dims)+1] = m[1][Cell(T.q)])
                       /\ out' = out \cup {Cell(T.q)} /\ UNCHANGED <<m,dims>>
        \/ Is("lines") /\ W("all cells printed", out = DOMAIN m[1]) /\ UNCHANGED <<m,dims,out>>
        \/ UNCHANGED <<dims,out>> /\
           \/ Is("zero") /\ m' = [z \in 1..2 |-> [k \in 1..Prod(dims,Len(dims)) |-> 0]]
           \/ Is("set") /\ m' = [m EXCEPT ![T.m][Cell(T.p)] = T.x]
           \/ Is("get") /\ W("cell", T.r = m[T.m][Cell(T.p)]) /\ UNCHANGED m
           \/ Is("copy") /\ m' = [m EXCEPT ![T.m] = m[3-T.m]]
           \/ Is("dims") /\ W("dimensions", T.a = Len(dims) /\ T.d = dims) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m,dims,out,l>>
=============================================================================
