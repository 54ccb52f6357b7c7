-------------------------------- MODULE MCBnB --------------------------------
(* Exhaustive exploration of BnB: every order of exploration, every value, solution, cutset and   *)
(* dominance decision that the specification of the diagrams allows.                              *)
EXTENDS BnB
CONSTANTS K, L, W, Numbers
G == INSTANCE GenModel
VARIABLES sols     \* solutions of the model, one of each cost (constant)
OnePerCost(M,Q) == { CHOOSE s \in Q : SolCost(M,s) = v : v \in { SolCost(M,s) : s \in Q } }
vars == <<env,primal,inc,phase,opt,open,seen,pc,x,relx,sols>>
Init == \E e \in G!AllModels : \E lc \in BOOLEAN : \E dm \in BOOLEAN :
        /\ env = e /\ primal = Worst(e.M.mx) /\ inc = << >> /\ phase = "run"
        /\ opt = [loc |-> lc, dom |-> dm] /\ pc = "pick" /\ relx = FALSE
        /\ x = [st |-> RootSt(e.M), b |-> 0] /\ open = {x} /\ seen = (RootSt(e.M) :> 0)
        /\ sols = TLCEval(OnePerCost(e.M,G!Solutions(e.M)))
Up(v) == IF v = Worst(MX) THEN v ELSE IF MX THEN v + 1 ELSE v - 1
Cands(n) == {Worst(MX), Val(n), Up(Val(n)), primal, Up(primal)}
\* exact nodes below n, with the value of their best path from n
Below(n) == { [st |-> y.st, b |-> y.b, ex |-> TRUE] : y \in { z \in Layers(env.M,{Nd(n)},{Nd(n)}) : ~IsSink(env.M,z.st) } }
Next == /\ UNCHANGED sols
        /\ \/ \E n \in open : Prune(n)
           \/ \E n \in open : \E ub \in Cands(n) : \E ex \in BOOLEAN : \E ls \in {<< >>} \cup sols : Relax(n,ub,ex,ls)
           \/ \E v \in {Worst(MX)} \cup { SolCost(env.M,s) : s \in sols } : \E ex \in BOOLEAN : \E ls \in {<< >>} \cup sols : Restrict(v,ex,ls)
           \/ pc = "branch" /\ \E C \in SUBSET TLCEval(Below(x)) :
                \E D \in {{}} \cup { {n} : n \in open \cup {Nd(m) : m \in C} } : Branch(C,D)
           \/ BFinish
Spec == Init /\ [][Next]_vars
\* every open node is a state of the model at the value of some path (so that its solutions exist)
OpenReal == \A n \in open : IsSink(env.M,n.st) = FALSE /\ n.st \in DOMAIN seen /\ BetterEQ(MX,seen[n.st],n.b)
Done == phase = "idle" => S!Proved
Refines == S!Monotone
=============================================================================
