------------------------------ MODULE MCDiagram ------------------------------
(* Top-down compilation as a machine: one step builds one layer, choosing in every possible way    *)
(* which nodes are merged (relaxed), dropped (restricted) or redirected to a dominating node.      *)
(* Every diagram built by the rules of Diagram keeps what the diagrams promise: this is what makes  *)
(* the layer-by-layer judgement of DiagramTrace a judgement of the promises themselves.             *)
(* Bug selects a deliberately wrong rule, which TLC has to refute.                                  *)
EXTENDS Diagram
CONSTANTS K, L, W, Numbers, Strategies, Widths,
          Bug   \* "none", "exactmerge", "firstvalue", "domvalue", "lastkid", "orexact"
G == INSTANCE GenModel
VARIABLES env, d, root, par, nf, out, into, dropped, done
vars == <<env,d,root,par,nf,out,into,dropped,done>>
MX == env.M.mx
Up(v,k) == IF v = Worst(MX) THEN v ELSE IF MX THEN v + k ELSE v - k
Primals(e) == LET o == Opt(e) IN {Worst(e.M.mx)} \cup IF o = Worst(e.M.mx) THEN {} ELSE {o, o-1, o+1}
Root(e) == [id |-> 1, st |-> RootSt(e.M), b |-> 0, ex |-> TRUE]
Init == \E e \in G!AllModels : \E s \in Strategies : \E w \in Widths : \E lc \in BOOLEAN : \E dm \in BOOLEAN : \E p \in Primals(e) :
        /\ env = e /\ root = Root(e) /\ par = {1} /\ nf = <<root>> /\ out = << >> /\ into = {} /\ dropped = FALSE /\ done = FALSE
        /\ ~lc => p = Worst(e.M.mx)
        /\ d = [strat |-> s, w |-> w, loc |-> lc, dom |-> dm, ref |-> FALSE, primal |-> p]

RECURSIVE SetToSeqOf(_)
SetToSeqOf(A) == IF A = {} THEN << >> ELSE LET a == CHOOSE y \in A : TRUE IN <<a>> \o SetToSeqOf(A \ {a})
\* all partitions of a set
RECURSIVE Partitions(_)
Partitions(A) == IF A = {} THEN {{}}
                 ELSE LET a == CHOOSE y \in A : TRUE IN
                      UNION { { P \cup {{a}} } \cup { (P \ {B}) \cup {B \cup {a}} : B \in P } : P \in Partitions(A \ {a}) }
Blocks(A) == IF d.strat = "relaxed" THEN { P \in Partitions(A) : Cardinality(P) <= d.w /\ (Cardinality(A) <= d.w => \A B \in P : Cardinality(B) = 1) }
             ELSE IF d.strat = "exact" THEN { { {y} : y \in A } }
             ELSE { { {y} : y \in Q } : Q \in { R \in SUBSET A : Cardinality(R) <= d.w /\ (R # A => Cardinality(R) = d.w) } }
UnionSt(B) == [i |-> (CHOOSE s \in B : TRUE).i, m |-> UNION { s.m : s \in B }]
\* transitions that may be redirected: dominated by the target of another one at a value that is no worse
Dominators(X,x) == { y \in X : /\ y.s # x.s /\ Dom(env,y.s,x.s)
                               /\ IF Bug = "domvalue" THEN TRUE ELSE BetterEQ(MX,y.v,x.v)
                               /\ ~(Dom(env,x.s,y.s) /\ BetterEQ(MX,x.v,y.v)) }    \* (no mutual redirection)
Trans == UNION { { st[lb] : lb \in DOMAIN st } : st \in { Steps(env,nf[q]) : q \in par } }
Expand ==
  /\ ~done /\ par # {}
  /\ \E X \in {TLCEval({ x \in Trans : ~Pruned(env,d,x) })} :
     \E N \in {TLCEval({ x \in X : ~IsSink(env.M,x.s) })} :
     \E D \in {TLCEval({ x \in N : d.dom /\ d.strat # "exact" /\ Dominators(N,x) # {} })} :
     \E R \in {{},D} :                                       \* redirect none, or all that can be
     \E S \in {TLCEval({ x.s : x \in N \ R })} :
     \E P \in { Q \in Blocks(S) : \A A, B \in Q : UnionSt(A) = UnionSt(B) => A = B } :   \* one node for one state
       LET blk  == SetToSeqOf(P)
           of(s) == IF \E k \in DOMAIN blk : s \in blk[k] THEN CHOOSE k \in DOMAIN blk : s \in blk[k] ELSE 0
           \* the block that represents x: its own, or that of a dominating target that stays
           kept(x) == IF x \notin R \/ of(x.s) # 0 THEN of(x.s)
                      ELSE LET Y == { y \in Dominators(N,x) : y \notin R } IN IF Y = {} THEN 0 ELSE of((CHOOSE y \in Y : TRUE).s)
           tgt(x) == Len(nf) + kept(x)
           live == { x \in N : kept(x) # 0 }
           arcs == { [f |-> x.f, l |-> x.l, s |-> x.s, c |-> x.c, v |-> x.v, t |-> IF IsSink(env.M,x.s) THEN SinkId ELSE tgt(x)] :
                       x \in live \cup (X \ N) }
           node(k) == LET A == { a \in arcs : a.t = Len(nf) + k }
                          own == { a \in A : a.s \in blk[k] }
                          st == UnionSt(blk[k])
                      IN [id |-> Len(nf)+k, st |-> st,
                          b |-> IF Bug = "firstvalue" THEN (CHOOSE a \in A : TRUE).v ELSE BestOf(MX,{a.v : a \in A}),
                          ex |-> /\ (Bug = "exactmerge" \/ \A a \in own : a.s = st)
                                 /\ IF Bug = "orexact" THEN \E a \in own : nf[a.f].ex ELSE \A a \in own : nf[a.f].ex]
           new == [k \in DOMAIN blk |-> node(k)]
       IN /\ \A k \in DOMAIN blk : \E a \in arcs : a.t = Len(nf) + k
          /\ nf' = nf \o new
          /\ par' = Len(nf)+1..Len(nf)+Len(blk)
          /\ out' = out \o [k \in 1..Cardinality(par) |-> { a \in arcs : a.f = Len(nf)-Cardinality(par)+k }]
          /\ into' = into \cup { a \in arcs : a.t = SinkId }
          /\ dropped' = (dropped \/ live # N)
  /\ UNCHANGED <<env,d,root,done>>
Close == ~done /\ par = {} /\ done' = TRUE /\ UNCHANGED <<env,d,root,par,nf,out,into,dropped>>
Next == Expand \/ Close
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Value == BestOf(MX,{a.v : a \in into})
SinkEx == into # {} /\ \A a \in into : nf[a.f].ex
Exact == CASE d.strat = "exact" -> TRUE
           [] d.strat = "restricted" -> ~dropped
           [] OTHER -> \A k \in DOMAIN nf : nf[k].ex
\* the cutset: exact nodes with an inexact child (the sink is inexact if a parent is)
KidEx(a) == IF a.t = SinkId THEN SinkEx ELSE nf[a.t].ex
Cut == { k \in DOMAIN out : /\ nf[k].ex
                            /\ IF Bug = "lastkid" THEN out[k] # {} /\ ~KidEx(CHOOSE a \in out[k] : \A z \in out[k] : a.l >= z.l)
                               ELSE \E a \in out[k] : ~KidEx(a) }
Rec == IF SinkEx THEN Value ELSE d.primal
\* what every arc and node must satisfy (judged by DiagramTrace on the real diagrams)
RulesOK == \A k \in DOMAIN nf : k > 1 =>
   LET A == { a \in UNION { out[q] : q \in DOMAIN out } : a.t = k } IN
   /\ \A a \in A : Represents(env,d,nf[k],a,A)
   /\ nf[k].ex => \A a \in A : ExactArc(env,d,nf[a.f].ex,nf[k],a,A)
\* what the diagram promises
Promise == done =>
   /\ (d.strat # "relaxed" \/ Exact) => RestrictedSound(env,d,root,Value)
   /\ d.strat = "relaxed" => RelaxedSound(env,d,root,Value)
   /\ Exact => ExactSound(env,d,root,Value)
CutPromise == (done /\ d.strat = "relaxed" /\ ~Exact) =>
   /\ Escapes(env,d,nf,out,Cut,1,SinkEx,Rec) = {}
   /\ CutSound(env,d,root,{nf[k] : k \in Cut},Rec)
\* an exact node is reached: its value is that of a path of the model to its state
RECURSIVE Paths(_)
Paths(F) == LET ch == UNION { { [st |-> Tau(env.M,y.st,lb), b |-> y.b + Cost(env.M,y.st,lb)] : lb \in Allowed(env.M,y.st) } : y \in F }
            IN IF ch = {} THEN F ELSE F \cup Paths(ch)
ExactReal == done => LET R == TLCEval(Paths({[st |-> root.st, b |-> root.b]})) IN
   \A k \in DOMAIN nf : nf[k].ex => [st |-> nf[k].st, b |-> nf[k].b] \in R
\* backward values of the finished diagram
RECURSIVE BackOf(_)
BackOf(k) == IF k = SinkId THEN 0
             ELSE BestOf(MX, { a.c + BackOf(a.t) : a \in { z \in out[k] : BackOf(z.t) # Worst(MX) } })
BackPromise == (done /\ d.strat = "relaxed") => \A k \in DOMAIN nf : BackSound(env,d,nf[k],BackOf(k))
=============================================================================
