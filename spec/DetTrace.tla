------------------------------ MODULE DetTrace ------------------------------
(* Determinism of the search: a run is a function of the model and the options.  ref is what the  *)
(* first run of a group showed its user (times aside); the other runs of the group, which differ  *)
(* from it in where their memory lies and in what it contained before, have to show the same.     *)
EXTENDS TraceBase
VARIABLES ref, at, first
Init == ref = << >> /\ at = 0 /\ first = TRUE /\ l = 1
W(n,c) == Want("det",n,c)
View(e) == CASE e.ev = "sol"  -> <<"sol",e.val,e.lbl>>
             [] e.ev = "prog" -> <<"prog",e.n,e.hasd,e.dual,e.primal>>
             [] e.ev = "end"  -> <<"end",e.primal,e.inc,e.nn,e.nt>>
Step(e) == IF first THEN ref' = Append(ref,View(e)) /\ UNCHANGED <<at,first>>
           ELSE /\ W("another run of the same search differs", at < Len(ref) /\ ref[at+1] = View(e))
                /\ at' = at + 1 /\ UNCHANGED <<ref,first>>
Next == \/ Is("case") /\ W("another run of the same search is shorter", first \/ at = Len(ref))
                      /\ first' = T.first /\ at' = 0 /\ ref' = IF T.first THEN << >> ELSE ref
        \/ (Is("sol") \/ Is("prog") \/ Is("end")) /\ Step(T)
Spec == Init /\ [][Next]_<<ref,at,first,l>>
=============================================================================
