----------------------------- MODULE GenInit -----------------------------
(* Clients of the life cycle: every sequence of initialisations (of MPI by *)
(* the program, of the library by each of its routines, repeated), queries *)
(* and finalisations within the bounds, on MPIs of every thread level.     *)
EXTENDS ShmemInit, Json
CONSTANTS MaxDepth, Emitting
VARIABLES plan
gvars == <<memVars, lockVars, collVars, teamVars, heapVars, initVars, plan>>
Init == /\ MemInit /\ LockInit /\ CollInit /\ TeamInit(1, 1) /\ HeapInit(65536)
        /\ \E t \in 0..3 : InitInit(t)
        /\ plan = <<>>
Did(o, a) == plan' = Append(plan, [o |-> o, a |-> a])
Legacy == \E i \in 1..Len(plan) : plan[i].o = "start_pes"
Finalized == \E i \in 1..Len(plan) : plan[i].o = "finalize"
Count(o) == Cardinality({i \in 1..Len(plan) : plan[i].o = o})
Inis == {"init", "start_pes", "init_thread"}

\* the program initialises MPI itself, before anything else
AppMpi == /\ plan = <<>>
          /\ \E l \in 0..3 : MpiInit(0, Lowest(l, lim), TRUE) /\ Did("mpi_init", l)
\* the library initialises MPI in its first initialisation
LibMpi == /\ ~Up(0) /\ Get(mst, 0, "no") = "no"
          /\ \E l \in 0..3 : l <= lim /\ MpiInit(0, l, FALSE) /\ UNCHANGED plan
Initialise == /\ Up(0) /\ ~Finalized
              /\ Count("init") + Count("init_thread") + Count("start_pes") < 3
              /\ \/ RetInit(0, -1, mlvl[0].app, <<>>) /\ \E o \in {"init", "start_pes"} : Did(o, 0)
                 \/ \E r, pr \in 0..3 : \E rc \in {0, 1} : RetInit(0, r, mlvl[0].app, <<pr, rc>>) /\ Did("init_thread", r)
AskLevel == /\ 0 \in ini /\ Up(0) /\ ~Finalized /\ (plan = <<>> \/ plan[Len(plan)].o # "query")
            /\ \E l \in 0..3 : QueryResult(0, <<l, 0, 1, 0, 1, 1, 4, 1, Mask(1)>>) /\ Did("query", 0)
Finalise == /\ 0 \in ini /\ Count("finalize") < 2
            /\ (IF Up(0) THEN MpiFinal(0) ELSE UNCHANGED initVars)
            /\ Did("finalize", 0)
Next == /\ Len(plan) < MaxDepth
        /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars>>
        /\ AppMpi \/ LibMpi \/ Initialise \/ AskLevel \/ Finalise
Spec == Init /\ [][Next]_gvars
View == <<lim, plan, mst, ini, lvl, mlvl>>
Emit == IF Emitting /\ plan # plan' /\ 0 \in ini' THEN PrintT(<<"PLAN", ToJson([t |-> lim, c |-> plan'])>>) ELSE TRUE
--------------------------------------------------------------------------
\* never more than MPI gives, never more than configured
Honest == 0 \in DOMAIN lvl => lvl[0] <= Lowest(ConfLevel, mlvl[0].l) /\ mlvl[0].l <= lim
\* a library that initialises MPI itself gets what the MPI can do
Once == Get(mst, 0, "no") # "no" => 0 \in DOMAIN mlvl
==========================================================================
