------------------------------ MODULE PoolVec ------------------------------
(* Why components on one pool do not disturb each other: growable vectors implemented by cells of *)
(* a stack-like memory.  A vector that is full moves to a region of twice the size at the top and *)
(* leaves its old region behind; a release only moves the top.  A component may grow only if it   *)
(* was created after the last mark: BUG "late" drops this condition, "short" allocates the old    *)
(* capacity, "nocopy" forgets to copy the content, "over" lets a release free one cell too many.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cells, Vals, MaxObj, BUG
VARIABLES mem, top, vec,      \* vec: id -> [b, cap, n, lvl]
          mk                  \* marks: [top, ids]
          , abs               \* what the user stored: id -> sequence
vars == <<mem,top,vec,mk,abs>>
Ids == 1..MaxObj
Init == mem = [a \in 0..Cells-1 |-> 0] /\ top = 0 /\ vec = << >> /\ mk = << >> /\ abs = << >>
New(i,cap) == /\ i \notin DOMAIN vec /\ (\A j \in DOMAIN vec : j < i) /\ top + cap <= Cells
              /\ vec' = (i :> [b |-> top, cap |-> cap, n |-> 0, lvl |-> Len(mk)]) @@ vec
              /\ top' = top + cap /\ abs' = (i :> << >>) @@ abs /\ UNCHANGED <<mem,mk>>
Moved(i) == [vec[i] EXCEPT !.b = top, !.cap = 2*vec[i].cap, !.n = @+1] 
Need(i)  == IF BUG = "short" THEN vec[i].cap ELSE 2*vec[i].cap
Push(i,x) == /\ i \in DOMAIN vec
             /\ IF vec[i].n < vec[i].cap
                THEN /\ mem' = [mem EXCEPT ![vec[i].b + vec[i].n] = x] /\ vec' = [vec EXCEPT ![i].n = @+1] /\ UNCHANGED top
                ELSE /\ BUG = "late" \/ vec[i].lvl = Len(mk)
                     /\ top + 2*vec[i].cap <= Cells
                     /\ LET q == vec[i] IN
                        mem' = [a \in DOMAIN mem |-> IF a = top + q.n THEN x
                                                     ELSE IF a >= top /\ a < top + q.n /\ BUG # "nocopy" THEN mem[q.b + (a - top)] ELSE mem[a]]
                     /\ vec' = [vec EXCEPT ![i] = Moved(i)] /\ top' = top + Need(i)
             /\ abs' = [abs EXCEPT ![i] = Append(@,x)] /\ UNCHANGED mk
Pop(i) == i \in DOMAIN vec /\ vec[i].n > 0 /\ vec' = [vec EXCEPT ![i].n = @-1] /\ abs' = [abs EXCEPT ![i] = SubSeq(@,1,Len(@)-1)] /\ UNCHANGED <<mem,top,mk>>
Mark == Len(mk) < 2 /\ mk' = Append(mk,[top |-> top, ids |-> DOMAIN vec]) /\ UNCHANGED <<mem,top,vec,abs>>
Release(m) == /\ m \in DOMAIN mk
              /\ top' = IF BUG = "over" /\ mk[m].top > 0 THEN mk[m].top - 1 ELSE mk[m].top
              /\ vec' = [i \in mk[m].ids |-> vec[i]] /\ abs' = [i \in mk[m].ids |-> abs[i]] /\ mk' = SubSeq(mk,1,m-1) /\ UNCHANGED mem
Next == \/ \E i \in Ids : (\E c \in 1..2 : New(i,c)) \/ (\E x \in Vals : Push(i,x)) \/ Pop(i)
        \/ Mark \/ \E m \in 1..2 : Release(m)
Spec == Init /\ [][Next]_vars
Content(i) == [k \in 1..vec[i].n |-> mem[vec[i].b + k - 1]]
Inv == /\ \A i \in DOMAIN vec : Content(i) = abs[i]
       /\ \A i \in DOMAIN vec : vec[i].b + vec[i].cap <= top
       /\ \A i, j \in DOMAIN vec : i # j => vec[i].b + vec[i].cap <= vec[j].b \/ vec[j].b + vec[j].cap <= vec[i].b
\* refinement of Shared
Obj == [i \in DOMAIN vec |-> [t |-> "vec", c |-> Content(i)]]
Mks == [m \in DOMAIN mk |-> mk[m].ids]
S == INSTANCE Shared WITH obj <- Obj, marks <- Mks
SNext == \/ \E i \in Ids : S!SNew(i,"vec")
         \/ \E i \in DOMAIN Obj, x \in Vals : S!SSet(i,Append(Obj[i].c,x))
         \/ \E i \in DOMAIN Obj : Obj[i].c # << >> /\ S!SSet(i,SubSeq(Obj[i].c,1,Len(Obj[i].c)-1))
         \/ S!SMark
         \/ \E m \in DOMAIN Mks : S!SRelease(m)
Refines == S!SInit /\ [][SNext]_<<Obj,Mks>>
=============================================================================
