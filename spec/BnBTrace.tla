------------------------------ MODULE BnBTrace ------------------------------
(* The components of the branch and bound (relaxed and restricted apply, cutset, node allocator), *)
(* driven by the harness in an arbitrary order with arbitrary widths, against BnB.                *)
EXTENDS BnB, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<env,primal,inc,phase,opt,open,seen,pc,x,relx,l>>
Want(name,cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT",l,name>>) /\ FALSE
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
NodeR(j) == [st |-> ToSt(j.st), b |-> j.b, ex |-> j.ex, lbl |-> j.lbl]
Sol == IF T.sols = << >> THEN << >> ELSE T.sols[1]

Init == /\ env = [M |-> [mx |-> FALSE], h |-> << >>] /\ primal = 0 /\ inc = << >> /\ phase = "idle"
        /\ opt = [loc |-> FALSE, dom |-> FALSE] /\ open = {} /\ seen = << >> /\ pc = "pick" /\ x = [b |-> 0] /\ relx = FALSE /\ l = 1
TStart == /\ Is("start")
          /\ \E e \in {Env(T.model)} : BStart(e, Worst(e.M.mx), [loc |-> T.loc, dom |-> T.dom])
          /\ Want("wrong root", Nd(NodeR(T.root)) = x')
SolOK == /\ Want("more than one solution", Len(T.sols) <= 1)
         /\ Want("the labels are not a solution", Sol # << >> => IsSolution(env.M,Sol))
         /\ Want("the solution does not improve", Sol # << >> => Better(MX,SolCost(env.M,Sol),primal))
         /\ Want("the primal bound is not that of the incumbent",
                 T.primal = IF Sol = << >> THEN primal ELSE SolCost(env.M,Sol))
         /\ Want("better misjudged", T.better <=> Better(MX,T.cur,primal))
TRelax == /\ Is("relax") /\ SolOK
          /\ LET n == Nd(NodeR(T.x)) IN
             /\ Want("not an open node", n \in open)
             /\ Want("labels of an open node", LblOK(env,NodeR(T.x)))
             /\ Want("the relaxed value is no bound", RelaxedSound(env,Mode("relaxed"),n,T.cur))
             /\ Want("exact, but the subproblem is not solved", (T.exact /\ T.better) => ~CanImprove(n,T.primal))
             /\ Relax(n,T.cur,T.exact,Sol)
TRestrict == /\ Is("restrict") /\ SolOK
             /\ Want("the restricted value is not feasible", RestrictedSound(env,Mode("restricted"),x,T.cur))
             /\ Want("exact, but the subproblem is not solved", T.exact => ~CanImprove(x,T.primal))
             /\ Restrict(T.cur,T.exact,Sol)
TBranch == /\ Is("branch")
           /\ \E C \in { { NodeR(T.cut[k].n) : k \in DOMAIN T.cut } } :
              /\ Want("a cut node is not exact or its labels are wrong", \A n \in C : n.ex /\ LblOK(env,n))
              /\ Want("the cutset loses an improving solution", CutSound(env,Mode("relaxed"),x,C,primal))
              /\ Want("two cut nodes for one state", Cardinality({n.st : n \in C}) = Len(T.cut))
              /\ Want("the allocator keeps or refuses the wrong nodes",
                      \A k \in DOMAIN T.cut : LET n == NodeR(T.cut[k].n) IN
                         IF T.cut[k].root THEN Nd(n) = Nd(x) ELSE T.cut[k].kept <=> Fresh(n))
              /\ Want("the allocator returns a different node",
                      \A k \in DOMAIN T.cut : LET n == NodeR(T.cut[k].n) g == NodeR(T.cut[k].got) IN
                         g.st = n.st /\ g.b = n.b /\ g.lbl = n.lbl)
              /\ Branch(C,{})
TFinish == /\ Is("finish")
           /\ Want("the primal bound is not that of the incumbent", T.primal = primal)
           /\ Want("open nodes differ", (T.open = 0) <=> (open = {}))
           /\ Want("no open node is left, but the optimum was not found", T.open = 0 => S!Proved)
           /\ phase' = "idle" /\ UNCHANGED <<env,primal,inc,opt,open,seen,pc,x,relx>>
Next == TStart \/ TRelax \/ TRestrict \/ TBranch \/ TFinish
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
