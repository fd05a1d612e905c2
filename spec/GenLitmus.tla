---------------------------- MODULE GenLitmus ----------------------------
(* Clients of the memory model: PE 0 issues an operation A, synchronises,  *)
(* and issues B; PE 1 waits for the effect of B and then reads what A has  *)
(* written.  Every plan (kinds, contexts, targets, synchronisation) with   *)
(* every interleaving and every delay of the deliveries.  The invariants   *)
(* state what quiet, fence, barriers and blocking calls promise; the plans *)
(* are printed, and replayed in the library.                               *)
EXTENDS Shmem, Json
CONSTANTS AKinds, BKinds, Syncs, Syncs2, CtxsUsed, ATargets, Emitting
VARIABLES pl, w, r, seen, aval
gvars == <<memVars, pl, w, r, seen, aval>>

\* kind: name in Shmem, nonblocking
K(k) == CASE k = "putn" -> "put" [] k = "faddn" -> "fadd" [] k = "swapn" -> "swap" [] OTHER -> k
Nb(k) == k \in {"putn", "faddn", "swapn"}
Collective == {"barrier", "sync", "alloc"}
Syncing == {"none"} \cup Collective

Plans == {p \in [a : AKinds, xa : CtxsUsed, ta : ATargets, s : Syncs, xs : CtxsUsed, b : BKinds, xb : CtxsUsed, s2 : Syncs2, xs2 : CtxsUsed] :
            /\ p.s \in Syncing => p.xs = 0
            /\ p.s2 \in Syncing => p.xs2 = 0
            /\ ~(p.s \in Collective /\ p.s2 \in Collective)}

Init == /\ MemInit
        /\ pl \in Plans
        /\ w = 0 /\ r = (IF pl.s \in Collective \/ pl.s2 \in Collective THEN 0 ELSE 2) /\ seen = (0 - 1) /\ aval = 0

Issue(p, id, x, t, c, k) ==
  IF K(k) = "put" THEN IssuePut(p, id, x, t, <<c>>, <<1>>, Nb(k)) ELSE IssueAmo(p, id, x, t, c, K(k), 1, 0, Nb(k))
\* the call returns
Return(p, id, k) == IF K(k) \in Fetching /\ ~Nb(k) THEN \E v \in 0..1 : ReturnFetched(p, id, <<v>>) ELSE ReturnPut(p)
AllPes == {0, 1}
CS == IF pl.s \in Collective THEN pl.s ELSE pl.s2
Compl(s) == IF s \in {"barrier", "alloc"} THEN {0} ELSE {}

Sync1(s, x) == CASE s = "none" -> UNCHANGED memVars
                 [] s = "fence" -> Fence(0, x)
                 [] s = "quiet" -> Quiet(0, x)
                 [] OTHER -> Enter(0, <<"b">>, Compl(s))
Sync2(s) == IF s \in Collective THEN Leave(0, <<"b">>, AllPes) ELSE UNCHANGED memVars
Writer ==
  /\ UNCHANGED <<pl, r, seen, aval>>
  /\ CASE w = 0 -> Issue(0, 1, pl.xa, pl.ta, 0, pl.a) /\ w' = 1
       [] w = 1 -> Return(0, 1, pl.a) /\ w' = 2
       [] w = 2 -> Sync1(pl.s, pl.xs) /\ w' = 3
       [] w = 3 -> Sync2(pl.s) /\ w' = 4
       [] w = 4 -> Sync1(pl.s2, pl.xs2) /\ w' = 5
       [] w = 5 -> Sync2(pl.s2) /\ w' = 6
       [] w = 6 -> Issue(0, 2, pl.xb, 1, 1, pl.b) /\ w' = 7
       [] w = 7 -> Return(0, 2, pl.b) /\ w' = 8
       [] OTHER -> FALSE
Observer ==
  /\ UNCHANGED <<pl, w>>
  /\ CASE r = 0 -> Enter(1, <<"b">>, Compl(CS)) /\ r' = 1 /\ UNCHANGED <<seen, aval>>
       [] r = 1 -> Leave(1, <<"b">>, AllPes) /\ r' = 2 /\ UNCHANGED <<seen, aval>>
       [] r = 2 -> IssueRead(1, 1) /\ r' = 3 /\ UNCHANGED <<seen, aval>>
       [] r = 3 -> ReturnRead(1, "eq", 1, TRUE) /\ r' = 4 /\ UNCHANGED <<seen, aval>>
       [] r = 4 -> IssueGet(1, 3, 0, pl.ta, <<0>>, FALSE) /\ r' = 5 /\ aval' = Val(<<pl.ta, 0>>) /\ UNCHANGED seen
       [] r = 5 -> /\ \E v \in {0, 1} : ReturnFetched(1, 3, <<v>>) /\ seen' = v
                   /\ r' = 6 /\ UNCHANGED aval
       [] OTHER -> FALSE
Network == /\ \E t \in 0..2, c \in 0..1, u, v \in 0..1 : Deliver(t, c, u, v)
           /\ UNCHANGED <<pl, w, r, seen, aval>>
Next == Writer \/ Observer \/ Network
Spec == Init /\ [][Next]_gvars
View == <<memVars, pl, w, r, seen>>

--------------------------------------------------------------------------
(* Promises.  A comes before B: *)
Strong == {"put", "putn", "add", "set", "fadd", "swap"}
By(s, x) ==
  \/ s = "quiet" /\ x = pl.xa                       \* quiet completes what its context has issued
  \/ s \in {"barrier", "alloc"} /\ pl.xa = 0        \* barriers complete the default context
  \/ /\ s = "fence" /\ x = pl.xa /\ pl.xb = pl.xa /\ pl.ta = 1   \* a fence orders deliveries to one PE
     /\ ~(Nb(pl.a) /\ K(pl.a) # "put") /\ ~(Nb(pl.b) /\ K(pl.b) # "put")
Promised ==
  \/ K(pl.a) \in Fetching /\ ~Nb(pl.a)              \* the call has returned a value
  \/ By(pl.s, pl.xs) \/ By(pl.s2, pl.xs2)
Kept == seen = 0 => ~Promised
\* a read by the target of its own memory returns what is there
NoStale == seen >= 0 /\ aval = 1 => seen = 1
\* each operation takes effect at most once
Once == \A a \in DOMAIN mem : mem[a] \in {0, 1}
\* what is outstanding forever was never synchronised
Quieted == /\ w >= 4 /\ pl.s = "quiet" => \A o \in ops : o.p = 0 /\ o.id = 1 => o.x # pl.xs
           /\ w >= 6 /\ pl.s2 = "quiet" => \A o \in ops : o.p = 0 /\ o.id = 1 => o.x # pl.xs2

Emit == IF Emitting /\ seen # seen' THEN PrintT(<<"PLAN", ToJson([p |-> pl, seen |-> seen', must |-> Promised])>>) ELSE TRUE
==========================================================================
