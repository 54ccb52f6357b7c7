-------------------------------- MODULE Dag --------------------------------
(* Acyclic models without layers: states 1..N in topological order, 1 the root, N the sink;        *)
(* t[u][l] target (0: not allowed), c[u][l] cost.  What the exact diagram of such a model is.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BAD == 1000000000
Worst(mx) == IF mx THEN -BAD ELSE BAD
Better(mx,a,b) == IF mx THEN a > b ELSE a < b
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
BestOf(mx,S) == IF S = {} THEN Worst(mx) ELSE IF mx THEN -Least({-x : x \in S}) ELSE Least(S)
Succ(D,u) == IF u = D.N THEN {} ELSE { D.t[u][l] : l \in {k \in 1..D.L : D.t[u][k] # 0} }
RECURSIVE Reach(_,_,_)
Reach(D,F,R) == LET n == UNION { Succ(D,u) : u \in F } \ R IN IF n = {} THEN R ELSE Reach(D,n,R \cup n)
Reachable(D) == Reach(D,{1},{1})
\* value of the best completion, by states from N down to 1
RECURSIVE HB(_,_,_)
HB(D,u,h) == IF u = 0 THEN h
             ELSE HB(D,u-1, TLCEval([h EXCEPT ![u] = BestOf(D.mx, { D.c[u][l] + h[D.t[u][l]] :
                       l \in {k \in 1..D.L : D.t[u][k] # 0 /\ h[D.t[u][k]] # Worst(D.mx)} })]))
Completion(D) == HB(D,D.N-1,[u \in 1..D.N |-> IF u = D.N THEN 0 ELSE Worst(D.mx)])
RECURSIVE Walk(_,_,_,_,_)
Walk(D,u,c,ls,k) == IF k > Len(ls) THEN <<u,c>>
                    ELSE IF u = D.N \/ ls[k] \notin 1..D.L THEN <<0,0>>
                    ELSE IF D.t[u][ls[k]] = 0 THEN <<0,0>>
                    ELSE Walk(D,D.t[u][ls[k]],c + D.c[u][ls[k]],ls,k+1)
=============================================================================
