------------------------------- MODULE Diagram -------------------------------
(* Top-down compilation of exact, restricted and relaxed decision diagrams: what each strategy    *)
(* may do with a transition, and what the finished diagram promises.                              *)
(*                                                                                                *)
(* A node is [id, st, b (value of the best path), ex (exact), lbl (labels of that path)];         *)
(* a transition out of p is [f, l, s, c, v]: source id, label, target state, cost, value of the   *)
(* path it extends; an arc is a transition with a target id t (the sink has id 0).                *)
(* All operators take the environment e (model + completion table, see LTS) and the compilation   *)
(* mode d = [strat, w, loc, dom, ref, primal].  MCDiagram explores the machine built from them;   *)
(* DiagramTrace replays the diagrams of the implementation through them.                          *)
EXTENDS LTS
SinkId == 0

\* the transitions of node p, by label
Steps(e,p) == TLCEval([l \in Allowed(e.M,p.st) |->
                 LET c == Cost(e.M,p.st,l) IN [f |-> p.id, l |-> l, s |-> Tau(e.M,p.st,l), c |-> c, v |-> p.b + c]])
\* the local bound shows that no completion of the transition x can improve the primal bound
Pruned(e,d,x) == d.loc /\ ~Better(e.M.mx, x.v + Local(e,x.s), d.primal)

\* node t may represent the transition x: it is its target, it is merged from its target (and
\* others), or its target is dominated by the target of y, a transition that t represents
Direct(t,x)           == t.st = x.s
Merged(d,t,x)         == d.strat = "relaxed" /\ t.st.i = x.s.i /\ x.s.m \subseteq t.st.m
Redirected(e,d,t,x,Y) == /\ d.dom /\ d.strat # "exact"
                         /\ \E y \in Y : /\ Dom(e,y.s,x.s) /\ BetterEQ(e.M.mx,y.v,x.v)
                                         /\ Direct(t,y) \/ Merged(d,t,y)
Represents(e,d,t,x,Y) == Direct(t,x) \/ Merged(d,t,x) \/ Redirected(e,d,t,x,Y)
\* exactness: an exact node is reached by unmerged transitions out of exact nodes only
ExactArc(e,d,pex,t,x,Y) == (pex /\ Direct(t,x)) \/ Redirected(e,d,t,x,{y \in Y : Direct(t,y)})

\* a node's labels lead from the root of the problem to its state, at its value
LblOK(e,n) == LET r == Replay(e.M,n.lbl) IN r.ok /\ r.st = n.st /\ r.c = n.b

--------------------------------------------------------------------------------
\* The finished diagram of the subproblem root, with value val.
RootVal(e,root) == Add(e.M.mx, root.b, HV(e,root.st))
\* can the subproblem of n still improve the primal bound?  (without a local bound nothing is cut off)
Improving(e,d,n) == LET v == RootVal(e,n) IN
   v # Worst(e.M.mx) /\ (d.loc => Better(e.M.mx,v,d.primal))

\* restricted: never better than the subproblem allows
RestrictedSound(e,d,root,val) == ~Better(e.M.mx, val, RootVal(e,root))
\* relaxed: never worse than the best improving solution
RelaxedSound(e,d,root,val) == Improving(e,d,root) => BetterEQ(e.M.mx, val, RootVal(e,root))
\* flagged exact: the value is the value
ExactSound(e,d,root,val) == /\ RestrictedSound(e,d,root,val)
                            /\ Improving(e,d,root) => val = RootVal(e,root)

\* backward values: best path to the sink, and a valid bound on the completions
Back(e,out,bb) == BestOf(e.M.mx, { a.c + bb[a.t] : a \in {x \in out : bb[x.t] # Worst(e.M.mx)} })
BackSound(e,d,n,bb) == Improving(e,d,n) => BetterEQ(e.M.mx, bb, HV(e,n.st))

--------------------------------------------------------------------------------
\* The cutset of an inexact diagram.  Reach: the nodes reached from the root without crossing the
\* cutset.  Every solution that leaves Reach through an inexact node, or enters the sink, must be
\* represented by a cut node, be recorded (value rec), or be no better than the primal bound.
RECURSIVE Spread(_,_,_,_)
Spread(F,R,out,cut) ==      \* F: frontier of ids, R: ids found so far, out: id -> arcs
  LET new == { a.t : a \in UNION { out[x] : x \in F \cap DOMAIN out } } \ R
  IN IF new = {} THEN R ELSE Spread(new \ cut, R \cup new, out, cut)
ReachAvoiding(root,out,cut) == IF root \in cut THEN {} ELSE Spread({root},{root},out,cut) \ cut
Escapes(e,d,nf,out,cut,root,sinkEx,rec) ==   \* the arcs through which an improving solution is lost
  { a \in UNION { out[x] : x \in ReachAvoiding(root,out,cut) \cap DOMAIN out } :
      LET v == Add(e.M.mx, a.v, HV(e,a.s))
      IN /\ v # Worst(e.M.mx) /\ Better(e.M.mx,v,d.primal)
         /\ IF a.t = SinkId THEN ~(sinkEx /\ BetterEQ(e.M.mx,rec,v)) ELSE ~nf[a.t].ex /\ a.t \notin cut }
CutSound(e,d,root,cutNodes,rec) ==
  /\ \A n \in cutNodes : n.ex
  /\ LET v == RootVal(e,root) IN
     (v # Worst(e.M.mx) /\ Better(e.M.mx,v,d.primal)) =>
        \/ BetterEQ(e.M.mx,rec,v)
        \/ \E n \in cutNodes : BetterEQ(e.M.mx, RootVal(e,n), v)
=============================================================================
