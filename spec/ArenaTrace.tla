---------------------------- MODULE ArenaTrace ----------------------------
EXTENDS Arena, TraceBase
Init == AInit /\ l = 1
Blk == [id |-> T.id, b |-> <<T.hi,T.lo>>, e |-> <<T.ehi,T.elo>>]
Next == \/ Is("case") /\ AReset
        \/ Is("alloc") /\ Want("pool","block is not aligned", T.al = 0)
                       /\ Want("pool","block overlaps a live block", \A i \in 1..Len(live) : Apart(Blk,live[i]))
                       /\ AAlloc(Blk)
        \/ Is("read") /\ Want("pool","content of a live block changed", T.bad = 0) /\ (\E i \in 1..Len(live) : live[i].id = T.id) /\ UNCHANGED <<live,marks>>
        \/ Is("mark") /\ AMark /\ T.m = Len(marks')
        \/ Is("release") /\ ARelease(T.m)
        \/ Is("reset") /\ AReset
        \/ Is("again") /\ Want("pool","memory released to a mark is not reused", T.same = T.n) /\ UNCHANGED <<live,marks>>
Spec == Init /\ [][Next]_<<live,marks,l>>
=============================================================================
