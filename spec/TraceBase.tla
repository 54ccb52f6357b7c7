----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications of the containers.  The trace is NDJSON: line l is the *)
(* record T, T.ev names the operation.  TAGS selects the requirements that are judged.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == { s[i] : i \in 1..Len(s) }
Tags == SetOf(ndJsonDeserialize(IOEnv.TAGS)[1])
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
\* a requirement on the observed results of the operation in line l
Want(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT",l,tag,name>>) /\ FALSE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)

Ascending(s) == \A i \in 1..Len(s)-1 : s[i] < s[i+1]
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >> ELSE LET m == Min(S) IN <<m>> \o Sorted(S \ {m})
RECURSIVE Join(_,_,_)
Join(s,sep,k) == IF k > Len(s) THEN "" ELSE ToString(s[k]) \o (IF k = Len(s) THEN "" ELSE sep) \o Join(s,sep,k+1)
RECURSIVE FoldFrom(_,_,_,_)
FoldFrom(Op(_,_),acc,s,k) == IF k > Len(s) THEN acc ELSE FoldFrom(Op,Op(acc,s[k]),s,k+1)
Fold(Op(_,_),acc,s) == FoldFrom(Op,acc,s,1)
=============================================================================
