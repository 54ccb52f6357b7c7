-------------------------------- MODULE BnB --------------------------------
(* Branch and bound over decision diagrams, as an algorithm on open subproblems.                  *)
(* One node of the search is handled in up to three steps: the relaxed diagram bounds it (Relax), *)
(* the restricted diagram looks for solutions (Restrict), the cutset replaces it (Branch).  What  *)
(* the diagrams return is any value that Diagram allows, so that the theorem (Covered, Proved at   *)
(* the end) holds for every compilation strategy and every order of exploration.                  *)
EXTENDS Diagram
CONSTANTS KeepFirst,  \* TRUE: a state is explored once, with whatever value came first (a bug)
          LoseRoot    \* TRUE: a cutset that is the node itself is not requeued (a bug)
VARIABLES env, primal, inc, phase,     \* as in Search
          opt,    \* [loc, dom]
          open,   \* open nodes: set of [st,b]
          seen,   \* state -> value: every state ever queued, with its best value
          pc,     \* "pick", "restrict", "branch"
          x,      \* node being explored
          relx    \* its relaxed diagram was exact
bvars == <<env,primal,inc,phase,opt,open,seen,pc,x,relx>>
S == INSTANCE Search
MX == env.M.mx
Nd(n) == [st |-> n.st, b |-> n.b]
Mode(strat) == [strat |-> strat, loc |-> opt.loc, dom |-> opt.dom, primal |-> primal, w |-> 0]
Val(n) == RootVal(env,n)
CanImprove(n,p) == Val(n) # Worst(MX) /\ Better(MX,Val(n),p)

BStart(e,warm,o) == /\ S!Start(e,warm)
                    /\ opt' = o /\ pc' = "pick" /\ relx' = FALSE
                    /\ x' = [st |-> RootSt(e.M), b |-> 0] /\ open' = {x'} /\ seen' = (RootSt(e.M) :> 0)

\* an open node whose bound cannot improve the primal is dropped
Prune(n) == /\ phase = "run" /\ pc = "pick" /\ n \in open /\ ~CanImprove(n,primal)
            /\ open' = open \ {n} /\ UNCHANGED <<env,primal,inc,phase,opt,seen,pc,x,relx>>
\* a solution found by a diagram (<<>>: none)
Found(ls) == IF ls = << >> THEN UNCHANGED <<env,primal,inc,phase>> ELSE S!Improve(ls)
\* relaxed diagram of n: value ub, exact or not, solution ls
Relax(n,ub,exact,ls) ==
  /\ phase = "run" /\ pc = "pick" /\ n \in open /\ open' = open \ {n}
  /\ RelaxedSound(env,Mode("relaxed"),n,ub)
  /\ Found(ls)
  /\ IF Better(MX,ub,primal)
     THEN /\ exact => ~CanImprove(n,primal')
          /\ pc' = "restrict" /\ x' = n /\ relx' = exact
     ELSE ls = << >> /\ UNCHANGED <<pc,x,relx>>
  /\ UNCHANGED <<opt,seen>>
Restrict(val,exact,ls) ==
  /\ phase = "run" /\ pc = "restrict"
  /\ RestrictedSound(env,Mode("restricted"),x,val)
  /\ Found(ls)
  /\ ~Better(MX,val,primal')
  /\ exact => ~CanImprove(x,primal')
  /\ pc' = IF exact \/ relx THEN "pick" ELSE "branch"
  /\ UNCHANGED <<opt,open,seen,x,relx>>
\* a state is new, or reached with a better value than before
Fresh(n) == IF n.st \in DOMAIN seen THEN ~KeepFirst /\ Better(MX,n.b,seen[n.st]) ELSE TRUE
Dominated(n,Q) == opt.dom /\ \E q \in Q : q # n /\ Dom(env,q.st,n.st) /\ BetterEQ(MX,q.b,n.b)
\* cut: set of [st,b] of exact nodes; the node itself is requeued; dominated nodes disappear
Branch(cut,doms) ==
  /\ phase = "run" /\ pc = "branch"
  /\ CutSound(env,Mode("relaxed"),x,cut,primal)
  /\ LET new == { Nd(n) : n \in { m \in cut : Nd(m) # Nd(x) /\ Fresh(m) } }
         again == IF Nd(x) \in {Nd(n) : n \in cut} /\ ~LoseRoot THEN {Nd(x)} ELSE {}
         q == { n \in open : \A m \in new : m.st # n.st } \cup new \cup again  \* a better value replaces a worse one
     IN /\ \A n \in doms : n \in q /\ Dominated(n,q \ doms)
        /\ open' = q \ doms
        /\ seen' = [s \in DOMAIN seen \cup {n.st : n \in new} |->
                       IF \E n \in new : n.st = s THEN (CHOOSE n \in new : n.st = s).b ELSE seen[s]]
  /\ pc' = "pick" /\ UNCHANGED <<env,primal,inc,phase,opt,x,relx>>
BFinish == /\ phase = "run" /\ pc = "pick" /\ open = {} /\ phase' = "idle"
           /\ UNCHANGED <<env,primal,inc,opt,open,seen,pc,x,relx>>
--------------------------------------------------------------------------------
\* nothing is lost: the optimum is found, or below an open node, or below the node in hand
Covered == phase = "run" /\ S!Proved = FALSE =>
   \E n \in open \cup (IF pc = "pick" THEN {} ELSE {Nd(x)}) : Val(n) = Opt(env)
\* the best bound of the open nodes is a dual bound of the whole problem, that of any open node is not
BestOpen == CHOOSE v \in {Val(n) : n \in open} : \A n \in open : BetterEQ(MX,v,Val(n))
BestBracket == phase = "run" /\ pc = "pick" /\ open # {} => S!Bracket(BestOpen)
AnyBracket  == phase = "run" /\ pc = "pick" => \A n \in open : S!Bracket(Val(n))
Optimal == [][phase = "run" /\ phase' = "idle" => S!Proved]_bvars
Incumbent == S!IncumbentOK
=============================================================================
