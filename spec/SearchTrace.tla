----------------------------- MODULE SearchTrace -----------------------------
(* Is the observed behaviour of BAndB::search (solution callbacks, limit callbacks, final values) *)
(* a behaviour of Search?  One NDJSON line per event; see harness/hx_search.cpp.  TAGS selects    *)
(* the requirements that are judged: sol (solutions), opt (the end), limit, same (same model,     *)
(* same answer),                                                                                    *)
EXTENDS Search, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tags == SetOf(ndJsonDeserialize(IOEnv.TAGS)[1])
VARIABLES l,      \* next line
          tick,   \* last elapsed time seen by the limit callback
          grp,    \* [e: env of the current group of runs, w: result of the first run of the group]
          cfg,    \* the "case" line of the current run
          prog    \* last progress line
vars == <<env,primal,inc,phase,l,tick,grp,cfg,prog>>
Want(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT",l,tag,name>>) /\ FALSE

Init == /\ env = [M |-> [mx |-> FALSE], h |-> << >>] /\ primal = 0 /\ inc = << >> /\ phase = "idle"
        /\ l = 1 /\ tick = 0 /\ grp = [set |-> FALSE, res |-> 0] /\ cfg = [warm |-> 0, cb |-> TRUE] /\ prog = [n |-> 0, ms |-> 0]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
T == Trace[l]

TCase == /\ Is("case")
         /\ LET e == IF T.first THEN Env(T.model) ELSE env IN
            /\ Start(e, T.warm)
            /\ grp' = IF T.first \/ T.warm # Worst(e.M.mx) THEN [set |-> FALSE, res |-> 0] ELSE grp
         /\ cfg' = T /\ tick' = 0 /\ prog' = [n |-> 0, ms |-> 0]
TSol == /\ Is("sol")
        /\ Want("limit","solution reported after the limit struck", phase = "run")
        /\ Want("sol","reported labels are not a solution", IsSolution(env.M,T.lbl))
        /\ Want("sol","solution does not improve the primal bound", Better(env.M.mx, SolCost(env.M,T.lbl), primal))
        /\ Want("sol","the primal bound during the callback is not the cost of the solution", T.val = SolCost(env.M,T.lbl))
        /\ IF "sol" \in Tags /\ phase = "run" THEN Improve(T.lbl)
           ELSE primal' = T.val /\ UNCHANGED <<env,inc,phase>>
        /\ UNCHANGED <<tick,grp,cfg>>
\* a second callback is told the same
TSol2 == /\ Is("sol2")
         /\ Want("sol","two callbacks are told different things", T.val = primal /\ T.lbl = inc)
         /\ UNCHANGED <<env,primal,inc,phase,tick,grp,cfg>>
TTick == /\ Is("tick")
         /\ Want("limit","limit callback after the limit struck", phase = "run")
         /\ Want("limit","elapsed time went backwards", T.ms >= tick)
         /\ Want("limit","the elapsed time is not the time in milliseconds since the search began", T.lo <= T.ms /\ T.ms <= T.hi)
         /\ tick' = T.ms
         /\ IF T.stop /\ phase = "run" THEN Stop ELSE UNCHANGED <<env,primal,inc,phase>>
         /\ UNCHANGED <<grp,cfg>>
\* a progress line; tol: what the printed digits leave open
Loosen(d) == IF T.tol = 0 THEN d ELSE IF env.M.mx THEN d + T.tol ELSE d - T.tol
Abs(v) == IF v < 0 THEN -v ELSE v
TProg == /\ Is("prog")
         /\ Want("prog","the primal bound shown is not the primal bound", cfg.cb => Abs(T.primal - primal) <= T.tol)
         /\ Want("prog","a better solution than the dual bound shown is still to be found",
                 T.hasd => ~Better(env.M.mx,Opt(env),T.primal) \/ ~Better(env.M.mx,Opt(env),Loosen(T.dual)))
         /\ Want("prog","the gap shown is not the relative distance of the bounds",
                 T.hasg /\ T.hasd /\ T.tol = 0 /\ 0 < T.primal /\ T.primal <= 1000 /\ Abs(T.primal - T.dual) <= 1000
                 => Abs(T.gap * T.primal - 1000000 * Abs(T.primal - T.dual)) <= T.primal)
         /\ Want("prog","the count of nodes or the time went backwards", T.n >= prog.n /\ (T.ms >= prog.ms \/ T.ms < 0))
         /\ prog' = [n |-> T.n, ms |-> T.ms] /\ UNCHANGED <<env,primal,inc,phase,tick,grp,cfg>>
TEnd == /\ Is("end")
        /\ Want("sol","primal bound is not the cost of the incumbent", cfg.cb => T.primal = primal)
        /\ Want("sol","the incumbent in the bounds object is not the last solution reported", inc # << >> => T.inc = inc)
        /\ Want("sol","the incumbent in the bounds object is not a solution with the primal bound as its cost",
                T.primal # cfg.warm => IsSolution(env.M,T.inc) /\ SolCost(env.M,T.inc) = T.primal)
        /\ Want("sol","the primal bound got worse", BetterEQ(env.M.mx,T.primal,cfg.warm))
        /\ Want("prog","the value in the last line is not the primal bound",
                T.hasv => Abs(T.primal) >= 1000000000 \/ Abs(T.done - T.primal) <= T.dtol)
        /\ Want("prog","the number of nodes in the last line", T.nn >= 0 => prog.n <= T.nn /\ T.nn <= T.nt)
        /\ IF phase = "stopped"
           THEN /\ FinishStopped
                /\ Want("limit","limit not reported", T.lim # 0)
                /\ grp' = grp
           ELSE /\ Want("limit","limit reported without a limit", T.lim # 1)
                /\ Want("opt","search ended although a better solution exists", ~Better(env.M.mx, Opt(env), T.primal))
                /\ Want("opt","search ended with a value that no solution has", T.primal = Pick(env.M.mx,cfg.warm,Opt(env)))
                /\ Want("same","same model, different answer", ~grp.set \/ grp.res = T.primal)
                /\ IF "opt" \in Tags /\ "sol" \in Tags /\ cfg.cb THEN Finish
                   ELSE phase' = "idle" /\ primal' = T.primal /\ UNCHANGED <<env,inc>>
                /\ grp' = [set |-> TRUE, res |-> T.primal]
        /\ UNCHANGED <<tick,cfg>>
Next == TCase \/ TProg \/ (UNCHANGED prog /\ (TSol \/ TSol2 \/ TTick \/ TEnd))
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Inv == "sol" \in Tags => IncumbentOK /\ NeverBetterThanOpt
=============================================================================
