------------------------------- MODULE SetAlg -------------------------------
(* Sets of naturals in registers s[1..N]: every operation is the mathematical one, whatever the    *)
(* history and the storage of the operands.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE s
SInit(n) == s = [i \in 1..n |-> {}]
Assign(i,x) == s' = [s EXCEPT ![i] = x]
RangeSet(a,b) == IF a <= b THEN a..(b-1) ELSE (b+1)..a      \* Range(a,b)
T3(y) == 3*y - 100
RECURSIVE SumT(_)
SumT(x) == IF x = {} THEN 0 ELSE LET y == CHOOSE z \in x : TRUE IN T3(y) + SumT(x \ {y})
Eval(op,o) ==      \* the value that operation op with operands o stores into register o.i
  CASE op = "insert" -> s[o.i] \cup {o.x}
    [] op = "remove" -> s[o.i] \ {o.x}
    [] op = "clear"  -> {}
    [] op = "union"  -> s[o.i] \cup s[o.j]
    [] op = "inter"  -> s[o.i] \cap s[o.j]
    [] op = "diff"   -> s[o.i] \ s[o.j]
    [] op = "or"     -> s[o.j] \cup s[o.q]
    [] op = "and"    -> s[o.j] \cap s[o.q]
    [] op = "minus"  -> s[o.j] \ s[o.q]
    [] op \in {"copy","move","copyeq"} -> s[o.j]
    [] op = "above"  -> {y \in s[o.i] : y <= o.x}
    [] op = "below"  -> {y \in s[o.i] : y >= o.x}
    [] op = "compl"  -> (0..(o.w-1)) \ s[o.i]
    [] op = "range"  -> o.a..o.b
    [] op = "fromRange" -> RangeSet(o.a,o.b)
    [] op = "init"   -> {o.v[k] : k \in 1..Len(o.v)}
    [] op = "filter" -> {y \in s[o.j] : y % o.m = o.z % o.m}
    [] op = "flip"   -> {o.o - y : y \in s[o.j]}
Mutators == {"insert","remove","clear","union","inter","diff","or","and","minus","copy","copyeq","move","above","below","compl",
             "range","fromRange","init","filter","flip"}
=============================================================================
