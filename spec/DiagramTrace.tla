---------------------------- MODULE DiagramTrace ----------------------------
(* Replays diagrams built by the real Exact / Restricted / Relaxed strategies (harness/hx_dd.cpp) *)
(* through Diagram, one layer per step.  TAGS selects the groups of requirements that are judged: *)
(*   arcs  every arc is a transition (or merge, redirection) of the model and none is missing     *)
(*   bound node values, labels and the value of the diagram as best paths                         *)
(*   value soundness of the value of the diagram against the completion table                     *)
(*   flag  exactness of nodes and diagrams                                                        *)
(*   width, wf (well-formedness), back (backward values), cut, apply (bounds object), same        *)
EXTENDS Diagram, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tags == SetOf(ndJsonDeserialize(IOEnv.TAGS)[1])
VARIABLES l,        \* next line
          env,      \* model and completion table
          d,        \* compilation mode
          root,
          par,      \* ids of the current layer
          nf,       \* all nodes so far, by id (1, 2, ...)
          out,      \* arcs by source id
          into,     \* arcs into the sink
          bbs,      \* logged backward values, by id
          dropped,  \* a restricted diagram left out a transition
          widest,
          prev      \* canonical form of the previous diagram
vars == <<l,env,d,root,par,nf,out,into,bbs,dropped,widest,prev>>
Want(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT",l,tag,name>>) /\ FALSE
MX == env.M.mx
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
NodeR(j) == [id |-> j.id, st |-> ToSt(j.st), b |-> j.b, ex |-> j.ex, lbl |-> j.lbl]
ParOf(j) == { <<j.par[k][1], j.par[k][2], j.id>> : k \in DOMAIN j.par }
Name(x)  == IF x = SinkId THEN <<"sink">> ELSE nf[x].st
Canon == [nodes |-> { [st |-> nf[x].st, b |-> nf[x].b, ex |-> nf[x].ex, lbl |-> nf[x].lbl] : x \in DOMAIN nf },
          arcs  |-> { <<Name(a.f), a.l, Name(a.t), a.c>> : a \in UNION { out[x] : x \in DOMAIN out } }]

Init == /\ l = 1 /\ env = [M |-> [mx |-> FALSE], h |-> << >>] /\ d = [strat |-> "none"] /\ root = [id |-> -1]
        /\ par = {} /\ nf = << >> /\ out = << >> /\ into = {} /\ bbs = << >> /\ dropped = FALSE /\ widest = 0 /\ prev = << >>

TBegin ==
  /\ Is("begin")
  /\ IF l = 1 THEN TRUE ELSE Trace[l-1].ev = "close"
  /\ env' = IF T.first THEN Env(T.model) ELSE env
  /\ d' = [strat |-> T.strat, w |-> T.w, loc |-> T.loc, dom |-> T.dom, ref |-> T.ref, primal |-> T.primal, same |-> T.same]
  /\ LET r == NodeR(T.root) s == NodeR(T.src) IN
     /\ root' = r /\ par' = {1} /\ nf' = <<r>> /\ bbs' = <<T.root.bb>>
     /\ Want("apply","the root of the diagram is not the node it was asked to expand",
             s.st = r.st /\ s.b = r.b /\ s.lbl = r.lbl)
     /\ Want("bound","the root's labels do not lead to its state and value", LblOK(env',r))
     /\ Want("flag","the root of a diagram is exact", r.ex)
     /\ Want("wf","the root has parents", ParOf(T.root) = {})
     /\ Want("wf","the root is not in layer 0", T.strat # "exact" => T.root.ly = 0)
  /\ out' = << >> /\ into' = {} /\ dropped' = FALSE /\ widest' = 0
  /\ prev' = IF T.same THEN Canon ELSE << >>

\* the nodes of a layer have the next ids in sequence; out[k] lists the arcs [label,target,cost,source ok]
\* of the k-th node of the current layer
\* (\E x \in {e} binds x to the value of e: TLC would evaluate a LET once per use)
NewNodes == [k \in DOMAIN T.nodes |-> NodeR(T.nodes[k])]
NewIds   == Len(nf)+1..Len(nf)+Len(T.nodes)
Base     == Len(nf) - Cardinality(par)
Raw(x)   == T.out[x-Base]
StepsOfLayer == [x \in par |-> Steps(env,nf[x])]
GoodArc(st,a) == /\ a[1] \in DOMAIN st /\ st[a[1]].c = a[3]
                 /\ IF IsSink(env.M,st[a[1]].s) THEN a[2] = SinkId ELSE a[2] \in NewIds
ArcR(st,x,a) == [f |-> x, l |-> a[1], t |-> a[2], c |-> a[3],
                 s |-> IF a[1] \in DOMAIN st THEN st[a[1]].s ELSE RootSt(env.M), v |-> nf[x].b + a[3]]
ArcsOut(stp) == [x \in par |-> { ArcR(stp[x],x,Raw(x)[k]) : k \in DOMAIN Raw(x) }]
ArcsInto(ou) == [k \in DOMAIN T.nodes |->
                  { CHOOSE a \in ou[pr[1]] : a.l = pr[2] : pr \in SetOf(T.nodes[k].par) }]
WfArcs == /\ Len(T.out) = Cardinality(par)
          /\ \A x \in par : /\ \A k \in DOMAIN Raw(x) : Raw(x)[k][4] = 1
                            /\ Cardinality({Raw(x)[k][1] : k \in DOMAIN Raw(x)}) = Len(Raw(x))
Triples == UNION { { <<x,Raw(x)[k][1],Raw(x)[k][2]>> : k \in DOMAIN Raw(x) } : x \in par }
WfLists == /\ UNION { ParOf(T.nodes[k]) : k \in DOMAIN T.nodes } = { y \in Triples : y[3] # SinkId }
           /\ \A k \in DOMAIN T.nodes : /\ Cardinality(ParOf(T.nodes[k])) = Len(T.nodes[k].par)
                                        /\ \A j \in DOMAIN T.nodes[k].par : T.nodes[k].par[j][3] = 1
Sane(tag,name,cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT",l,IF tag \in Tags THEN tag ELSE "sane",name>>) /\ FALSE
TLayer ==
  /\ Is("layer")
  \* a diagram without these cannot be judged at all
  /\ Sane("wf","an arc is listed twice for one label, or its source is wrong", WfArcs)
  /\ Sane("wf","parent lists and child lists disagree", WfLists)
  /\ \E stp \in {TLCEval(StepsOfLayer)} : \E nx \in {TLCEval(NewNodes)} :
     /\ Sane("arcs","an arc that the model does not have",
             \A x \in par : \A k \in DOMAIN Raw(x) : GoodArc(stp[x],Raw(x)[k]))
     /\ \E ou \in {TLCEval(ArcsOut(stp))} : \E inn \in {TLCEval(ArcsInto(ou))} :
        \E drp \in {\E x \in par : \E lb \in DOMAIN stp[x] \ {a.l : a \in ou[x]} : ~Pruned(env,d,stp[x][lb])} :
        LET N == SetOf(nx) IN
        /\ Want("wf","two nodes for one state", Cardinality({n.st : n \in N}) = Len(nx))
        /\ Want("wf","a node outside of its layer", \A n \in N : \A x \in par : n.st.i = nf[x].st.i + 1)
        /\ Want("wf","a node has the wrong layer number",
                d.strat # "exact" => \A k \in DOMAIN T.nodes : T.nodes[k].ly = T.nodes[k].st.i - root.st.i)
        /\ Want("arcs","an arc to a node that does not represent the transition",
                \A k \in DOMAIN nx : \A a \in inn[k] : Represents(env,d,nx[k],a,inn[k]))
        /\ Want("arcs","a transition is missing",
                drp => d.strat = "restricted" /\ Cardinality(N) >= d.w)
        /\ Want("flag","a node is exact although it is merged or has an inexact parent",
                \A k \in DOMAIN nx : nx[k].ex => \A a \in inn[k] : ExactArc(env,d,nf[a.f].ex,nx[k],a,inn[k]))
        /\ Want("flag","a node is inexact without a reason",
                d.dom \/ \A k \in DOMAIN nx : (\A a \in inn[k] : nf[a.f].ex /\ Direct(nx[k],a)) => nx[k].ex)
        /\ Want("flag","nodes are merged although the layer fits the width",
                (d.strat = "relaxed" /\ ~d.dom /\ \E k \in DOMAIN nx : ~nx[k].ex /\ \A a \in inn[k] : nf[a.f].ex) =>
                   Cardinality({ a.s : a \in UNION { inn[k] : k \in DOMAIN nx } }) > d.w)
        /\ Want("bound","a node's bound is not the value of its best path",
                \A k \in DOMAIN nx : nx[k].b = BestOf(MX,{a.v : a \in inn[k]}))
        /\ Want("bound","a node's labels do not lead to its state at its bound",
                \A n \in N : (n.ex \/ d.strat # "relaxed") => LblOK(env,n))
        /\ Want("width","a layer exceeds the width",
                (d.strat = "restricted" \/ (d.strat = "relaxed" /\ ~d.ref)) => Cardinality(N) <= d.w)
        /\ par' = NewIds /\ nf' = nf \o nx
        /\ out' = out \o [k \in 1..Cardinality(par) |-> ou[Base+k]]
        /\ into' = into \cup UNION { {a \in ou[x] : a.t = SinkId} : x \in par }
        /\ bbs' = bbs \o [k \in DOMAIN T.nodes |-> T.nodes[k].bb]
        /\ dropped' = (dropped \/ drp)
        /\ widest' = IF Cardinality(N) > widest THEN Cardinality(N) ELSE widest
  /\ UNCHANGED <<env,d,root,prev>>

TClose ==
  /\ Is("close")
  /\ \E bb \in {TLCEval([x \in 0..Len(bbs) |-> IF x = SinkId THEN 0 ELSE bbs[x]])} :
     LET sk  == NodeR(T.sink)
         val == BestOf(MX, { a.v : a \in into })
         cut == SetOf(T.cut)
         rec == IF T.applied THEN T.after ELSE IF sk.ex THEN T.cur ELSE d.primal
         real == T.cur # Worst(MX) /\ (d.strat # "relaxed" \/ T.exact \/ sk.ex)
     IN
     /\ Want("bound","the value of the diagram is not that of its best path", T.cur = val)
     /\ Want("bound","the value of the sink is not that of the diagram", into = {} \/ sk.b = val)
     /\ Want("bound","the labels of the best path are not a solution of that value",
             real => IsSolution(env.M,T.inc) /\ SolCost(env.M,T.inc) = T.cur)
     /\ Want("wf","arcs into the sink and its parents disagree",
             /\ ParOf(T.sink) = { <<a.f,a.l,a.t>> : a \in into } /\ Len(T.sink.par) = Cardinality(into)
             /\ into # {} => sk.st = Sink(env.M) )
     /\ Want("flag","the sink is exact although it has an inexact parent", (sk.ex /\ into # {}) => \A a \in into : nf[a.f].ex)
     /\ Want("flag","an exact compilation is not flagged exact", d.strat = "exact" => T.exact)
     /\ Want("flag","a restricted diagram is flagged exact although transitions were dropped",
             d.strat = "restricted" => (T.exact => ~dropped))
     /\ Want("flag","a restricted diagram within its width is not flagged exact",
             d.strat = "restricted" => (~T.exact => widest >= d.w))
     /\ Want("flag","a relaxed diagram is flagged exact although nodes were merged, or the converse",
             d.strat = "relaxed" => (T.exact <=> \A x \in DOMAIN nf : nf[x].ex))
     /\ Want("value","a feasible diagram promises more than the subproblem allows",
             (d.strat # "relaxed" \/ T.exact) => RestrictedSound(env,d,root,T.cur))
     /\ Want("value","a relaxed diagram does not bound the subproblem",
             d.strat = "relaxed" => RelaxedSound(env,d,root,T.cur))
     /\ Want("value","the value of an exact diagram is not that of the subproblem",
             T.exact => ExactSound(env,d,root,T.cur))
     /\ Want("back","a backward value is not that of the best path to the sink",
             d.strat = "relaxed" => \A x \in DOMAIN nf : bb[x] = IF x \in DOMAIN out THEN Back(env,out[x],bb) ELSE Worst(MX))
     /\ Want("back","a backward value does not bound the completions",
             d.strat = "relaxed" => \A x \in DOMAIN nf : BackSound(env,d,nf[x],bb[x]))
     /\ Want("cut","the cutset contains something else than exact nodes of the diagram",
             d.strat = "relaxed" => /\ cut \subseteq DOMAIN nf /\ Cardinality(cut) = Len(T.cut)
                                    /\ \A x \in cut : nf[x].ex /\ LblOK(env,nf[x])
                                    /\ T.exact => cut = {})
     /\ Want("cut","an improving solution is neither covered by the cutset nor recorded",
             (d.strat = "relaxed" /\ ~T.exact) => /\ Escapes(env,d,nf,out,cut,root.id,sk.ex,rec) = {}
                                                  /\ CutSound(env,d,root,{nf[x] : x \in cut},rec))
     /\ Want("apply","apply misjudges the value of the diagram", T.applied => (T.better <=> Better(MX,T.cur,d.primal)))
     /\ Want("apply","apply leaves a wrong primal bound",
             T.applied => IF T.better /\ (d.strat # "relaxed" \/ T.exact) THEN T.after = T.cur
                          ELSE T.after = d.primal \/ (T.better /\ real /\ T.after = T.cur))
     /\ Want("same","the same subproblem, a different diagram", d.same => Canon = prev)
  /\ UNCHANGED <<env,d,root,par,nf,out,into,bbs,dropped,widest,prev>>
Next == TBegin \/ TLayer \/ TClose
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
