------------------------------ MODULE SegPool ------------------------------
(* The algorithm of Pool: segments of at least Seg cells, allocation at the top of the current one, *)
(* moving on (and adding segments) while the request does not fit; marks are positions.            *)
(* Refines Arena with addresses <<segment, offset>>.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seg, Sizes, MaxSegs, MaxLive, MaxMarks, Bug  \* Bug: "none", "if" (moves on once only), "notop" (a mark forgets the offset), "small" (a new segment ignores the request)
VARIABLES sizes, seg, top, live, marks
vars == <<sizes,seg,top,live,marks>>
Init == sizes = <<Seg>> /\ seg = 1 /\ top = 0 /\ live = << >> /\ marks = << >>
Max(a,b) == IF a > b THEN a ELSE b
\* segments after the loop, and where the block goes
RECURSIVE Place(_,_,_,_)
Place(ss,s,t,sz) ==
  IF t + sz <= ss[s] THEN [ss |-> ss, s |-> s, t |-> t]
  ELSE LET ss2 == IF s = Len(ss) THEN Append(ss,IF Bug = "small" THEN Seg ELSE Max(Seg,sz)) ELSE ss
       IN IF Bug \in {"if","small"} THEN [ss |-> ss2, s |-> s+1, t |-> 0] ELSE Place(ss2,s+1,0,sz)
Alloc(sz) == \E r \in {Place(sizes,seg,top,sz)} :
  /\ Len(live) < MaxLive /\ Len(r.ss) <= MaxSegs
  /\ sizes' = r.ss /\ seg' = r.s /\ top' = r.t + sz
  /\ live' = Append(live,[b |-> <<r.s,r.t>>, e |-> <<r.s,r.t+sz>>])
  /\ UNCHANGED marks
Mark == Len(marks) < MaxMarks /\ marks' = Append(marks,[top |-> top, seg |-> seg, h |-> Len(live)]) /\ UNCHANGED <<sizes,seg,top,live>>
Release(m) == /\ m \in 1..Len(marks)
              /\ top' = (IF Bug = "notop" THEN top ELSE marks[m].top) /\ seg' = marks[m].seg
              /\ live' = SubSeq(live,1,marks[m].h) /\ marks' = SubSeq(marks,1,m) /\ UNCHANGED sizes
Reset == seg' = 1 /\ top' = 0 /\ live' = << >> /\ marks' = << >> /\ UNCHANGED sizes
Next == (\E z \in Sizes : Alloc(z)) \/ Mark \/ (\E m \in 1..Len(marks) : Release(m)) \/ Reset
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
A == INSTANCE Arena WITH marks <- [i \in 1..Len(marks) |-> marks[i].h]
\* every live block lies within its segment, apart from the others, below the top
Inv == /\ \A i \in 1..Len(live) : live[i].e[2] <= sizes[live[i].b[1]]
       /\ \A i, j \in 1..Len(live) : i # j => A!Apart(live[i],live[j])
       /\ \A i \in 1..Len(live) : A!Leq(live[i].e,<<seg,top>>)
ANext == \/ \E x \in {live'[i] : i \in 1..Len(live')} : A!AAlloc(x)
         \/ A!AMark \/ (\E m \in 1..Len(marks) : A!ARelease(m)) \/ A!AReset
Refines == A!AInit /\ [][ANext]_<<live,marks>>
=============================================================================
