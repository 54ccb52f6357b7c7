------------------------------ MODULE GenModel ------------------------------
(* Small pseudo-random user models for exhaustive exploration: model number p, minimised or       *)
(* maximised, with one or with several initial base states (see LTS).                             *)
EXTENDS LTS
CONSTANTS K,        \* layers
          L,        \* labels
          W,        \* base states per layer
          Numbers   \* numbers of the models
Rnd(p,i,b,l,z) == ((p*131 + i*37 + b*101 + l*17 + z*53 + ((p*(i+1)*(b+2)*(l+3) + z*71) % 127)*29) % 211)
Mdl(p,mx,many) ==
  LET sz(i) == IF i = 1 THEN (IF many THEN W ELSE 1) ELSE W IN
  [ K |-> K, L |-> L, mx |-> mx, n |-> [i \in 1..K |-> sz(i)],
    snk |-> [i \in 1..K |-> [l \in 1..L |-> IF i = K \/ Rnd(p,i,9,l,1) % 8 = 0 THEN 1 ELSE 0]],
    to  |-> [i \in 1..K |-> [b \in 1..sz(i) |-> [l \in 1..L |-> IF Rnd(p,i,b,l,2) % 5 = 0 THEN 0 ELSE 1 + (Rnd(p,i,b,l,3) % W)]]],
    c   |-> [i \in 1..K |-> [b \in 1..sz(i) |-> [l \in 1..L |-> (Rnd(p,i,IF many THEN 1 ELSE b,l,4) % 4) - (IF p % 3 = 0 THEN 2 ELSE 0)]]],
    slack |-> [i \in 1..K |-> [b \in 1..sz(i) |-> Rnd(p,i,b,7,5) % 3]],
    cls |-> [i \in 1..K |-> [b \in 1..sz(i) |-> Rnd(p,i,b,8,6) % 2]] ]
AllModels == { Env(Mdl(p,mx,many)) : p \in Numbers, mx \in BOOLEAN, many \in BOOLEAN }
\* all label sequences that are solutions
RECURSIVE Complete(_,_,_)
Complete(M,s,ls) == IF IsSink(M,s) THEN {ls}
                    ELSE UNION { Complete(M,Tau(M,s,l),Append(ls,l)) : l \in Allowed(M,s) }
Solutions(M) == Complete(M,RootSt(M),<< >>)
=============================================================================
