----------------------------- MODULE DagTrace -----------------------------
(* Exact diagrams of models without layers (harness/hx_dag.cpp), judged by Dag. *)
EXTENDS Dag, TraceBase
VARIABLE D
Nd == T.nodes
Ids == DOMAIN Nd
ArcsOf(i) == { <<Nd[i].kids[k][1], Nd[i].kids[k][2], Nd[i].kids[k][3]>> : k \in DOMAIN Nd[i].kids }
Kids == UNION { { <<i,a[1],a[2]>> : a \in ArcsOf(i) } : i \in Ids }
Pars == UNION { { <<Nd[i].par[k][1], Nd[i].par[k][2], i>> : k \in DOMAIN Nd[i].par } : i \in Ids }
Trans(u) == IF u = D'.N THEN {} ELSE { <<x, D'.t[u][x], D'.c[u][x]>> : x \in {k \in 1..D'.L : D'.t[u][k] # 0} }
InVals(i) == { Nd[Nd[i].par[k][1]].b + D'.c[Nd[Nd[i].par[k][1]].s][Nd[i].par[k][2]] : k \in DOMAIN Nd[i].par }
TDag == /\ Is("dag")
        /\ D' = IF T.first THEN [N |-> T.N, L |-> T.L, mx |-> T.mx, t |-> T.t, c |-> T.c] ELSE D
        /\ Want("arcs","the nodes are not the reachable states",
                {Nd[i].s : i \in Ids} = Reachable(D') /\ Cardinality(Ids) = Cardinality({Nd[i].s : i \in Ids}) /\ Nd[1].s = 1)
        /\ Want("arcs","the arcs of a node are not the transitions of its state",
                \A i \in Ids : { <<a[1],Nd[a[2]].s,a[3]>> : a \in ArcsOf(i) } = Trans(Nd[i].s) /\ Len(Nd[i].kids) = Cardinality(ArcsOf(i)))
        /\ Want("wf","parent lists and child lists disagree",
                /\ Kids = Pars /\ \A i \in Ids : Len(Nd[i].par) = Cardinality({p \in Pars : p[3] = i})
                /\ \A i \in Ids : (\A k \in DOMAIN Nd[i].par : Nd[i].par[k][3] = 1) /\ (\A k \in DOMAIN Nd[i].kids : Nd[i].kids[k][4] = 1))
        /\ Want("bound","a node's value is not that of its best path",
                \A i \in Ids : Nd[i].b = IF i = 1 THEN 0 ELSE BestOf(D'.mx,InVals(i)))
        /\ Want("bound","a node's labels do not lead to its state at its value",
                \A i \in Ids : Walk(D',1,0,Nd[i].lbl,1) = <<Nd[i].s,Nd[i].b>>)
        /\ Want("value","the value of the exact diagram is not the optimum", T.val = Completion(D')[1])
        /\ Want("value","the best path is not an optimal solution", T.val # Worst(D'.mx) => Walk(D',1,0,T.inc,1) = <<D'.N,T.val>>)
        /\ Want("flag","the exact diagram or a node of it is not exact", T.exact = 1 /\ \A i \in Ids : Nd[i].ex = 1)
Init == l = 1 /\ D = << >>
Next == TDag
Spec == Init /\ [][Next]_<<D,l>>
=============================================================================
