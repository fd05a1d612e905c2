---------------------------- MODULE TraceShmem ----------------------------
(* Checks histories recorded from the library against the specification.   *)
(* Each history is a sequence of events: calls, returns, changes of        *)
(* symmetric memory, ...; it is accepted iff some behaviour of the         *)
(* specification explains it from its first event to its last.             *)
EXTENDS ShmemInit, Json, IOUtils
VARIABLES tr, l, cur
VARIABLE over      \* the job has been ended
vars == <<memVars, lockVars, collVars, teamVars, heapVars, initVars, tr, l, cur, over>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr].ev
E == T[l]
N == Traces[tr].n

None == [ev |-> [o |-> "none"], k |-> 0]
Idle(p) == p \notin DOMAIN cur
Busyp(p) == p \in DOMAIN cur
\* the thread that makes the call: the PE itself, or one of its further threads
Thr == IF "th" \in DOMAIN E THEN E.th ELSE 0
Me == E.p + 100 * Thr
C == cur[Me].ev

Init ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ cur = <<>> /\ over = FALSE
  /\ MemInit /\ LockInit /\ CollInit /\ TeamInit(N, Traces[tr].ppn)
  /\ HeapInit(Traces[tr].heap) /\ InitInit(Traces[tr].tmax)

Ctxs == 0..31
AllPes == 0..(N - 1)

CellsInOrder == TRUE
\* the operations of this PE whose calls have not returned yet
InCall == {cur[q].ev.i : q \in {r \in DOMAIN cur : r % 100 = E.p /\ "i" \in DOMAIN cur[r].ev}}
\* k: for a quiet, the operations that it completes; for a fence, its number; otherwise: whether the library is initialised
Begin == /\ Idle(Me)
         /\ cur' = Set(cur, Me, [ev |-> E, k |-> CASE E.o = "quiet" -> {o.id : o \in Mine(E.p, E.x)} \ InCall
                                                [] E.o = "fence" -> Fences(E.p, E.x).call + 1
                                                [] OTHER -> CASE Get(mst, E.p, "no") = "no" -> 0 [] Up(E.p) -> 1 [] OTHER -> 2])
End == /\ Busyp(Me) /\ cur' = [q \in DOMAIN cur \ {Me} |-> cur[q]]

----------------------------------------------------------------------------
(* sets of PEs *)
ASet(s) == [i \in 1..s[3] |-> s[1] + (i - 1) * 2^s[2]]
Ran(m) == {m[i] : i \in 1..Len(m)}
\* the set of a synchronisation or collective
SetOf(e) == IF e.x < 0 THEN ASet(e.s) ELSE Members(e.p, e.x)
KeyOf(e) == IF e.o = "coll" /\ e.x < 0 THEN <<"a", e.s>>
            ELSE IF e.x >= 0 THEN <<"t", e.x, Members(e.p, e.x)>>
            ELSE <<e.o, e.s>>
CollArgs(e) == [k |-> e.k, src |-> e.c[2], dst |-> e.c[1], n |-> e.n, r |-> e.r, ds |-> e.d[1], ss |-> e.d[2],
                team |-> e.x >= 0]
----------------------------------------------------------------------------
Rest(S) == UNCHANGED S

DoCall ==
  /\ ~over
  /\ Begin
  /\ LET o == E.o  p == E.p IN
     CASE o = "put" -> IssuePut(p, E.i, E.x, E.t, E.c, E.v, E.n = 1)
                       /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o = "get" -> IssueGet(p, E.i, E.x, E.t, E.c, E.n = 1)
                       /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o = "amo" -> IssueAmo(p, E.i, E.x, E.t, E.c[1], E.k, E.a, E.b, E.n = 1)
                       /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o \in {"wait", "test", "poll"} -> IssueReadBy(p, Thr, E.c[1])
                       /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o = "fence" -> CallFence(p, E.x, InCall) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o \in {"barrier", "sync"} ->
            EnterWith(p, KeyOf(E), IF o = "barrier" THEN {0} ELSE {}, InCall)
            /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o = "finalize" -> (IF Up(p) THEN Enter(p, <<"fin">>, Ctxs) ELSE UNCHANGED memVars) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o \in {"alloc", "realloc", "free"} ->
            EnterWith(p, <<"al">>, {0}, InCall) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
       [] o = "coll" -> CollEnter(p, KeyOf(E), SetOf(E), CollArgs(E)) /\ UNCHANGED <<teamVars, heapVars, initVars>>
       [] o = "set_lock" -> CallSet(p, E.l) /\ UNCHANGED <<collVars, teamVars, heapVars, initVars>>
       [] o = "test_lock" -> CallTest(p, E.l) /\ UNCHANGED <<collVars, teamVars, heapVars, initVars>>
       [] o = "clear_lock" -> CallClearWith(p, E.l, InCall) /\ UNCHANGED <<collVars, teamVars, heapVars, initVars>>
       [] OTHER -> UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>

\* the value of pointer queries: 0: NULL, 1: an address that holds the value
PtrOk(e, v) == TRUE = (v[1] = 0 \/ (v[1] = 1 /\ e.t \in AllPes /\ v[2] = Val(<<e.t, e.c[1]>>)))

DoRet ==
  /\ ~over
  /\ Busyp(Me)
  /\ LET o == C.o  p == E.p  v == E.v IN
     CASE o = "tsplit2" /\ cur[p].k # 7 ->
            /\ cur' = Set(cur, p, [ev |-> C, k |-> 7])
            /\ Split2(p, C.t, C.w, C.a[1], C.cf[1], v, TRUE)
            /\ UNCHANGED <<memVars, lockVars, collVars, heapVars, initVars>>
       [] OTHER ->
          /\ End
          /\ CASE o = "put" \/ (o = "amo" /\ C.k \notin Fetching) -> ReturnPut(p) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "get" \/ (o = "amo" /\ C.k \in Fetching) ->
                    (IF C.n = 1 THEN UNCHANGED memVars ELSE ReturnFetched(p, C.i, v))
                    /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o \in {"wait", "poll"} -> (o = "poll" => v[1] = 1) /\ ReturnReadBy(p, Thr, C.k, C.a, TRUE)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "test" -> ReturnReadBy(p, Thr, C.k, C.a, v[1] = 1)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "quiet" -> QuietOf(p, C.x, cur[Me].k) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o \in {"barrier", "sync"} ->
                    /\ (C.x >= 0 => v[1] = 0)
                    /\ Leave(p, KeyOf(C), Ran(SetOf(C)))
                    /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "finalize" ->
                    /\ IF cur[p].k # 1 THEN UNCHANGED memVars
                       ELSE Get(mst, p, "no") = "down" /\ Leave(p, <<"fin">>, AllPes)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "alloc" ->
                    /\ IF v[1] = 1 THEN Leave(p, <<"al">>, AllPes) ELSE UNCHANGED memVars
                    /\ Alloc(p, C.s, C.k, C.n, C.a, C.x, v)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, initVars>>
               [] o = "realloc" ->
                    /\ IF v[1] = 1 THEN Leave(p, <<"al">>, AllPes) ELSE UNCHANGED memVars
                    /\ Realloc(p, C.s, C.n, v)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, initVars>>
               [] o = "free" ->
                    /\ Leave(p, <<"al">>, AllPes)
                    /\ FreeBlk(p, C.s)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, initVars>>
               [] o = "coll" ->
                    /\ v[1] = 0
                    /\ CollLeave(p, SetOf(C), CollArgs(C), C.x >= 0)
                    /\ UNCHANGED <<teamVars, heapVars, initVars>>
               [] o = "set_lock" -> RetSet(p, C.l) /\ UNCHANGED <<collVars, teamVars, heapVars, initVars>>
               [] o = "test_lock" -> RetTest(p, C.l, v[1]) /\ UNCHANGED <<collVars, teamVars, heapVars, initVars>>
               [] o = "clear_lock" -> RetClear(p, C.l) /\ UNCHANGED <<collVars, teamVars, heapVars, initVars>>
               [] o = "tsplit" -> Split(p, C.t, C.w, C.a[1], C.a[2], C.a[3], C.cf[1], v)
                    /\ UNCHANGED <<memVars, lockVars, collVars, heapVars, initVars>>
               [] o = "tsplit2" -> Split2(p, C.t, C.y, C.a[1], C.cf[2], v, FALSE)
                    /\ UNCHANGED <<memVars, lockVars, collVars, heapVars, initVars>>
               [] o = "tdestroy" -> DestroyTeam(p, C.t) /\ UNCHANGED <<memVars, lockVars, collVars, heapVars, initVars>>
               [] o = "tquery" -> v = Query(p, C.t)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "tconf" -> ConfigOk(p, C.t, v)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "ttrans" -> v[1] = Translate(p, C.t, C.a[1], C.a[2])
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "access" -> v = <<Accessible(p, C.s, C.t), Accessible(p, C.s, C.t)>>
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "bounds" -> ReachableOnly(p, C.t, v)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "ptr" -> PtrOk(C, v)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars>>
               [] o = "screate" -> SpaceCreate(p, C.s, C.n, C.a) /\ UNCHANGED <<memVars, lockVars, collVars, teamVars>>
               [] o \in {"sattach", "sdetach"} -> SpaceAttach(p, C.s, o = "sattach")
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars>>
               [] o = "sdestroy" -> SpaceDestroy(p, C.s)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars>>
               [] o = "sctx" -> SpaceCtx(p, C.s, C.x, v[1])
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars>>
               [] o = "cdestroy" -> Quiet(p, C.x) /\ CtxDestroy(p, C.x)
                    /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars>>
               [] o = "init" -> RetInit(p, C.a, cur[p].k # 0, v)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars>>
               [] o = "query" -> QueryResult(p, v)
                    /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars>>
               [] o = "fence" -> ReturnFence(p, C.x, cur[Me].k) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>
               [] OTHER -> FALSE

Chg == \/ Deliver(E.p, E.c, E.u, E.v) /\ UNCHANGED <<lockVars, collVars>>
       \/ CollWrite(E.p, E.c, E.u, E.v)

\* the program of PE p is over: what it left outstanding will be completed by the finalisation
Done ==
  /\ Idle(E.p)
  /\ cur' = Set(cur, E.p, [ev |-> [o |-> "done"], k |-> 0])
  /\ IF Up(E.p) THEN Enter(E.p, <<"fin">>, Ctxs) ELSE UNCHANGED memVars
  /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars>>

\* the end of the whole run
Fin ==
  /\ \A p \in AllPes : Busyp(p) /\ cur[p].ev.o = "done"
  /\ \A p \in AllPes : Get(mst, p, "no") # "up"
  /\ \A o \in ops : o.bar # {} /\ o.k # "rd" => Ok(o)
  /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars, cur>>

\* every PE has come to its end
EndOf(p) == Busyp(p) /\ cur[p].ev.o \in {"finalize", "done"}

Step ==
  LET e == E.e IN
  CASE e = "call" -> DoCall /\ UNCHANGED over
    [] e = "ret" -> DoRet /\ UNCHANGED over
    [] e = "chg" -> ~over /\ Chg /\ UNCHANGED <<teamVars, heapVars, initVars, cur, over>>
    [] e = "st" -> ~over /\ Overwrite(E.p, E.c, E.v) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars, cur, over>>
    [] e = "nbi" -> ~over /\ ReportNbi(E.p, E.i, E.v) /\ UNCHANGED <<lockVars, collVars, teamVars, heapVars, initVars, cur, over>>
    [] e = "settled" -> Settled /\ UNCHANGED <<collVars, teamVars, heapVars, initVars, cur, over>>
    [] e = "mpi_init" -> MpiInit(E.p, E.v, Idle(E.p))
                         /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, cur, over>>
    [] e = "mpi_fin" -> MpiFinal(E.p) /\ (TRUE = \A q \in AllPes : EndOf(q) \/ Get(mst, q, "no") = "down")
                         /\ (TRUE = \A o \in ops : <<<<"fin">>, 1>> \in o.bar => Ok(o) \/ o.p # E.p)
                         /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, cur, over>>
    [] e = "done" -> Done /\ UNCHANGED over
    [] e = "fin" -> ~over /\ Fin /\ UNCHANGED over
    \* global exit ends the job
    [] e = "abort" -> ~over /\ Busyp(E.p) /\ C.o = "gexit" /\ E.v = C.a /\ over' = TRUE
                      /\ UNCHANGED <<memVars, lockVars, collVars, teamVars, heapVars, initVars, cur>>
    [] OTHER -> FALSE      \* errors, PEs that are stuck, exits

Next == l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

\* how far each history was explained
Reach == TLCGet(tr) < l => TLCSet(tr, l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
    IF TLCGet(i) > Len(Traces[i].ev) THEN TRUE
    ELSE /\ PrintT(<<"REJECTED", i, TLCGet(i)>>)
         /\ TRUE
=============================================================================
