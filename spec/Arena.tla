------------------------------- MODULE Arena -------------------------------
(* Stack-like memory pool.  live: sequence of blocks [id,b,e] (addresses b..e-1); marks: sequence *)
(* of heights.  Releasing to a mark frees exactly what was allocated after it.                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live, marks
AInit == live = << >> /\ marks = << >>
\* addresses are pairs <<hi,lo>> (TLC integers have 32 bits)
Leq(a,b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Apart(x,y) == Leq(x.e,y.b) \/ Leq(y.e,x.b)
AAlloc(x) == (\A i \in 1..Len(live) : Apart(x,live[i])) /\ live' = Append(live,x) /\ UNCHANGED marks
AMark == marks' = Append(marks,Len(live)) /\ UNCHANGED live
ARelease(m) == m \in 1..Len(marks) /\ live' = SubSeq(live,1,marks[m]) /\ marks' = SubSeq(marks,1,m)
AReset == live' = << >> /\ marks' = << >>
=============================================================================
