----------------------------- MODULE DrawTrace -----------------------------
(* Recorded by hx_draw: the diagram, what was handed to the drawing program (or written by print), *)
(* the diagram afterwards.  There is no action for "stray": only the caller returns from the call. *)
EXTENDS TraceBase, Draw
VARIABLE D
Init == D = [nodes |-> << >>, arcs |-> << >>] /\ l = 1
W(n,c) == Want("draw",n,c)
Next == \/ Is("dd") /\ D' = [nodes |-> T.nodes, arcs |-> T.arcs]
        \/ Is("drawn") /\ W("the nodes drawn are not those of the diagram", NodesShown(D,T))
                       /\ W("the arcs drawn are not those of the diagram", ArcsShown(D,T)) /\ UNCHANGED D
        \/ Is("printed") /\ W("the arcs printed are not those of the diagram", ArcsShown(D,T)) /\ UNCHANGED D
        \/ Is("files") /\ W("a file is left open", T.more = 0) /\ UNCHANGED D
        \/ Is("after") /\ W("drawing changed the diagram", SameDiagram(D,T)) /\ UNCHANGED D
Spec == Init /\ [][Next]_<<D,l>>
=============================================================================
