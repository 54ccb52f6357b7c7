------------------------------ MODULE MemTrace ------------------------------
(* Histories of the instrumented builds: whatever a history does (the other trace specifications  *)
(* judge that), no step of it leaves the memory that is owned (Memory!MAccess), and repeating it  *)
(* leaves nothing behind (Memory!MEnd).                                                           *)
EXTENDS TraceBase
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF T.ev # "crash" THEN TRUE
           ELSE PrintT(<<"REJECT",l,"mem","an access outside of the memory that is owned, or an abnormal end">>) /\ FALSE
        /\ T.ev = "owned" => Want("mem","memory is not given back", T.more = 0)
Spec == Init /\ [][Next]_l
=============================================================================
