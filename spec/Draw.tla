-------------------------------- MODULE Draw --------------------------------
(* What a picture of a diagram is.  A diagram: nodes <<number,exact,sink,value>>, arcs            *)
(* <<from,to,label,cost>>.  A picture shows each node once (colour: exactness, box: the sink) and *)
(* each arc once with its label and cost, and nothing else; the sink of a diagram in which it is  *)
(* not reached may be shown alone.  Drawing does not change the diagram.                          *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == { s[i] : i \in 1..Len(s) }
Once(s) == Cardinality(Rng(s)) = Len(s)
Shown(D) == { <<n[1],n[2],n[3]>> : n \in Rng(D.nodes) }
HasSink(D) == \E n \in Rng(D.nodes) : n[3] = 1
Alone(D) == IF HasSink(D) THEN {} ELSE { <<-1,e,1>> : e \in 0..1 }
NodesShown(D,p) == /\ Once(p.nodes) /\ Shown(D) \subseteq Rng(p.nodes)
                   /\ \E X \in SUBSET Alone(D) : Cardinality(X) <= 1 /\ Rng(p.nodes) = Shown(D) \cup X
ArcsShown(D,p) == Len(p.arcs) = Len(D.arcs) /\ Rng(p.arcs) = Rng(D.arcs)
SameDiagram(D,E) == /\ Rng(D.nodes) = Rng(E.nodes) /\ Len(D.nodes) = Len(E.nodes)
                    /\ Rng(D.arcs) = Rng(E.arcs) /\ Len(D.arcs) = Len(E.arcs)
=============================================================================
