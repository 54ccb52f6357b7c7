----------------------------- MODULE CircQueue -----------------------------
(* The algorithm of CQueue: a ring of locations that doubles when one slot is left, and locations  *)
(* that know their slot, so that an element can be retracted.  Refines Fifo.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxRing, Bug      \* Bug: "none", "nopos" (resize), "noswap" (retract), "full" (no free slot)
VARIABLES mxs, enter, exit, cnt, data, val, pos
vars == <<mxs,enter,exit,cnt,data,val,pos>>
\* data: slot (0..mxs-1) -> location, val: location (0..mxs-1) -> value (0: none), pos: location -> slot
Nx(i) == (i + 1) % mxs
Live == { data[(exit + k) % mxs] : k \in 0..cnt-1 }
Init == /\ mxs = 2 /\ enter = 0 /\ exit = 0 /\ cnt = 0
        /\ data = [i \in 0..1 |-> i] /\ val = [i \in 0..1 |-> 0] /\ pos = [i \in 0..1 |-> 0]
\* the ring after doubling
RECURSIVE Slots(_)
Slots(cur) == IF cur = enter THEN <<cur>> ELSE <<cur>> \o Slots(Nx(cur))
Doubled ==
  LET s == Slots(exit) IN       \* mxs slots: the used ones, then the free one
  [ data |-> [i \in 0..2*mxs-1 |-> IF i < mxs THEN data[s[i+1]] ELSE i],
    val  |-> [j \in 0..2*mxs-1 |-> IF j < mxs THEN val[j] ELSE 0],
    pos  |-> [j \in 0..2*mxs-1 |-> IF j < mxs
                THEN (IF Bug = "nopos" THEN pos[j] ELSE IF \E i \in 1..mxs-1 : data[s[i]] = j THEN (CHOOSE i \in 1..mxs-1 : data[s[i]] = j) - 1 ELSE 0)
                ELSE 0] ]
Put(d,vl,p,m,at,v) == /\ data' = d
                      /\ val' = [vl EXCEPT ![d[at]] = v]
                      /\ pos' = [p EXCEPT ![d[at]] = at]
                      /\ enter' = (at + 1) % m /\ cnt' = cnt + 1 /\ mxs' = m
Full == cnt = (IF Bug = "full" THEN mxs ELSE mxs - 1)
Enq(v) == IF Full
          THEN /\ mxs < MaxRing
               /\ LET r == Doubled IN Put(r.data,r.val,r.pos,2*mxs,mxs-1,v) /\ exit' = 0
          ELSE Put(data,val,pos,mxs,enter,v) /\ UNCHANGED exit
\* the slot of a free location does not matter: it is normalised to 0
Deq == /\ enter # exit /\ exit' = Nx(exit) /\ cnt' = cnt - 1
       /\ pos' = [pos EXCEPT ![data[exit]] = 0] /\ val' = [val EXCEPT ![data[exit]] = 0]
       /\ UNCHANGED <<mxs,enter,data>>
Retract(j) ==      \* j: a location in the queue
  LET at == pos[j] IN
  /\ j \in Live
  /\ IF at = exit THEN UNCHANGED <<data,enter>> /\ pos' = [pos EXCEPT ![j] = 0]
     ELSE /\ data' = [data EXCEPT ![at] = data[exit], ![exit] = data[at]]
          /\ pos' = [pos EXCEPT ![j] = 0, ![data[exit]] = IF Bug = "noswap" THEN @ ELSE at]
          /\ UNCHANGED enter
  /\ exit' = Nx(exit) /\ cnt' = cnt - 1 /\ val' = [val EXCEPT ![j] = 0] /\ UNCHANGED mxs
Clear == /\ enter' = 0 /\ exit' = 0 /\ cnt' = 0 /\ pos' = [j \in DOMAIN pos |-> 0] /\ val' = [j \in DOMAIN val |-> 0] /\ UNCHANGED <<mxs,data>>
Next == (\E v \in Vals : Enq(v)) \/ Deq \/ (\E j \in Live : Retract(j)) \/ Clear
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Content == [k \in 1..cnt |-> val[data[(exit + k - 1) % mxs]]]
Inv == /\ cnt = (enter - exit + mxs) % mxs
       /\ \A i, j \in 0..mxs-1 : data[i] = data[j] => i = j
       /\ \A j \in Live : data[pos[j]] = j /\ val[j] \in Vals
F == INSTANCE Fifo WITH q <- Content
FNext == \/ \E v \in Vals : F!FEnq(v)
         \/ F!FDeq \/ F!FClear
         \/ \E v \in F!Elems : F!FRetract(v,Content')
Refines == F!FInit /\ [][FNext]_Content
=============================================================================
