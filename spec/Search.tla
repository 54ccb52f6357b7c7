------------------------------- MODULE Search -------------------------------
(* What a user of the branch and bound sees: solutions, each strictly better than the previous   *)
(* primal bound, then the end of the search, which (unless a limit stopped it) means that no      *)
(* better solution exists.                                                                        *)
EXTENDS LTS
VARIABLES env,      \* model and its completion table
          primal,   \* current primal bound
          inc,      \* labels of the incumbent (<<>> before the first solution)
          phase     \* "idle", "run", "stopped"
svars == <<env,primal,inc,phase>>

Start(e,warm) == /\ phase = "idle"
                 /\ env' = e /\ primal' = warm /\ inc' = << >> /\ phase' = "run"

\* a new incumbent: a feasible label sequence whose cost is strictly better
Improve(ls) == /\ phase = "run"
               /\ IsSolution(env.M,ls)
               /\ Better(env.M.mx, SolCost(env.M,ls), primal)
               /\ primal' = SolCost(env.M,ls)
               /\ inc' = ls
               /\ UNCHANGED <<env,phase>>

\* the primal bound cannot be improved
Proved == ~Better(env.M.mx, Opt(env), primal)
\* a progress report: nothing that is still to be found is better than the dual bound d
Bracket(d) == Proved \/ ~Better(env.M.mx, Opt(env), d)
Report(d,p) == phase = "run" /\ p = primal /\ Bracket(d) /\ UNCHANGED <<env,primal,inc,phase>>

Stop == /\ phase = "run" /\ phase' = "stopped" /\ UNCHANGED <<env,primal,inc>>

\* the search ends on its own
Finish == /\ phase = "run" /\ Proved /\ phase' = "idle" /\ UNCHANGED <<env,primal,inc>>
FinishStopped == /\ phase = "stopped" /\ phase' = "idle" /\ UNCHANGED <<env,primal,inc>>

--------------------------------------------------------------------------------
\* properties of every behaviour
IncumbentOK == inc # << >> => /\ IsSolution(env.M,inc)
                              /\ SolCost(env.M,inc) = primal
NeverBetterThanOpt == inc # << >> => ~Better(env.M.mx, primal, Opt(env))
Monotone == [][phase = "run" /\ phase' = "run" => BetterEQ(env.M.mx,primal',primal)]_svars
=============================================================================
