-------------------------------- MODULE LTS --------------------------------
(* Meaning of a user model of CODD: a layered transition system over subsets of base states.    *)
(* A model M is a record (as read from JSON, or built by an MC module):                          *)
(*   K layers, L labels, mx (TRUE: maximize), n[i] base states in layer i (1-based),             *)
(*   to[i][b][l] successor base state (0: label not allowed), c[i][b][l] cost,                   *)
(*   snk[i][l] = 1 iff label l taken in layer i leads to the sink,                               *)
(*   slack[i][b] looseness of the user's local bound, cls[i][b] class used by dominance.         *)
(* Several base states in the first layer make exact states sets: then costs depend on the label  *)
(* and the layer only, so that the value of a label sequence is that of each of its base paths.   *)
(* A state is [i |-> layer 0..K, m |-> set of base states]; the sink is [i |-> K, m |-> {}].     *)
(* Values are integers (quarter units); Worst(mx) stands for "no value".                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BAD == 1000000000
Worst(mx) == IF mx THEN -BAD ELSE BAD
Better(mx,a,b)   == IF mx THEN a > b ELSE a < b
BetterEQ(mx,a,b) == IF mx THEN a >= b ELSE a <= b
Pick(mx,a,b)     == IF Better(mx,b,a) THEN b ELSE a

\* best element of the (possibly empty) set of numbers S
Least(S) == CHOOSE x \in S : \A y \in S : x <= y      \* (TLC finds it in one pass)
BestOf(mx,S) == IF S = {} THEN Worst(mx)
                ELSE IF mx THEN -Least({-x : x \in S}) ELSE Least(S)

\* an empty JSON array becomes <<>>
SetOf(q) == {q[k] : k \in DOMAIN q}
ToSt(j)  == [i |-> j.i, m |-> SetOf(j.m)]
Sink(M)  == [i |-> M.K, m |-> {}]
RootSt(M) == [i |-> 0, m |-> 1..M.n[1]]   \* a set: the initial base states
IsSink(M,s) == s.i = M.K

Add(mx,a,b) == IF a = Worst(mx) \/ b = Worst(mx) THEN Worst(mx) ELSE a + b

--------------------------------------------------------------------------------
\* Completion values.  HTable(M)[i][b]: value of the best completion of base state b in layer i.
RECURSIVE HBuild(_,_,_)
HBuild(M,i,nxt) ==
  IF i = 0 THEN << >>
  ELSE LET t == TLCEval([b \in 1..M.n[i] |->
                  BestOf(M.mx, { IF M.snk[i][l] = 1 THEN M.c[i][b][l]
                                 ELSE M.c[i][b][l] + nxt[M.to[i][b][l]] :
                                 l \in { k \in 1..M.L : /\ M.to[i][b][k] # 0
                                                        /\ M.snk[i][k] = 1 \/ nxt[M.to[i][b][k]] # Worst(M.mx) } })])
       IN Append(HBuild(M,i-1,t), t)
HTable(M) == HBuild(M,M.K,<<>>)

\* the environment: the model together with its completion table
Env(M) == [M |-> M, h |-> TLCEval(HTable(M))]

\* completion value of a state (for a merged state: of its best member)
HV(e,s) == IF IsSink(e.M,s) THEN 0 ELSE BestOf(e.M.mx, { e.h[s.i+1][b] : b \in s.m })
Opt(e) == HV(e,RootSt(e.M))

\* labels allowed in s, transition, cost
Live(M,s,l)  == { b \in s.m : M.to[s.i+1][b][l] # 0 }
Allowed(M,s) == IF IsSink(M,s) THEN {} ELSE { l \in 1..M.L : Live(M,s,l) # {} }
Tau(M,s,l)   == IF M.snk[s.i+1][l] = 1 THEN Sink(M)
                ELSE [i |-> s.i+1, m |-> { M.to[s.i+1][b][l] : b \in Live(M,s,l) }]
Cost(M,s,l)  == BestOf(M.mx, { M.c[s.i+1][b][l] : b \in Live(M,s,l) })

\* the user's admissible local bound and dominance relation
Local(e,s) == IF IsSink(e.M,s) THEN 0
              ELSE BestOf(e.M.mx, { LET x  == IF e.h[s.i+1][b] = Worst(e.M.mx) THEN 0 ELSE e.h[s.i+1][b]
                                        sl == e.M.slack[s.i+1][b]
                                    IN IF e.M.mx THEN x + sl ELSE x - sl : b \in s.m })
Dom(e,a,b) == /\ a.i = b.i /\ ~IsSink(e.M,a)
              /\ e.M.cls[a.i+1][Least(a.m)] = e.M.cls[b.i+1][Least(b.m)]
              /\ ~Better(e.M.mx, HV(e,b), HV(e,a))

--------------------------------------------------------------------------------
\* Replaying a label sequence from state s (cost so far c): [ok, st, c]
RECURSIVE Run(_,_,_,_,_)
Run(M,s,c,ls,k) ==
  IF k > Len(ls) THEN [ok |-> TRUE, st |-> s, c |-> c]
  ELSE IF ls[k] \notin Allowed(M,s) THEN [ok |-> FALSE, st |-> s, c |-> c]
  ELSE Run(M, Tau(M,s,ls[k]), c + Cost(M,s,ls[k]), ls, k+1)
Replay(M,ls) == Run(M,RootSt(M),0,ls,1)
IsSolution(M,ls) == LET r == Replay(M,ls) IN r.ok /\ IsSink(M,r.st)
SolCost(M,ls) == Replay(M,ls).c

\* all (state, best value) pairs reachable from s with value b by following labels: set of [st, b]
RECURSIVE Layers(_,_,_)
Layers(M,F,acc) ==     \* F: set of [st,b] of one layer
  LET ch == UNION { { [st |-> Tau(M,x.st,l), b |-> x.b + Cost(M,x.st,l)] : l \in Allowed(M,x.st) } : x \in F }
      bs == { y \in ch : \A z \in ch : z.st = y.st => ~Better(M.mx,z.b,y.b) }
  IN IF bs = {} THEN acc ELSE Layers(M,bs,acc \cup bs)
=============================================================================
