----------------------------- MODULE GenLock -----------------------------
(* Clients of the locks: every PE runs a sequence of critical sections,    *)
(* entered with set_lock or (if it succeeds) test_lock; in each it reads   *)
(* the data that the lock protects and updates them without completing the *)
(* update.  Every program within the bounds, every interleaving, every     *)
(* delay of the updates.                                                   *)
EXTENDS ShmemLock, Json
CONSTANTS NPes, MaxSections, Locks, Kinds, Emitting
VARIABLES prog, pc, at, lastw, bad
gvars == <<memVars, lockVars, prog, pc, at, lastw, bad>>
Pes == 0..(NPes - 1)
Section == [k : Kinds, l : Locks]
Progs == UNION {[1..n -> Section] : n \in 0..MaxSections}
\* PEs are interchangeable but for PE 0, where the library keeps the locks
Rank0(s) == Len(s)
Init == /\ MemInit /\ LockInit
        /\ prog \in [Pes -> Progs]
        /\ \A p \in 1..(NPes - 2) : Len(prog[p]) <= Len(prog[p + 1])
        /\ pc = [p \in Pes |-> 0] /\ at = [p \in Pes |-> 1]
        /\ lastw = [l \in Locks |-> 0] /\ bad = FALSE
More(p) == at[p] <= Len(prog[p])
L(p) == prog[p][at[p]].l
K(p) == prog[p][at[p]].k
To(p, n) == pc' = [pc EXCEPT ![p] = n] /\ UNCHANGED <<prog, at>>
NextSection(p) == pc' = [pc EXCEPT ![p] = 0] /\ at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED prog
Keep == UNCHANGED <<lastw, bad>>
V(p) == 10 * (p + 1) + at[p]
Step(p) ==
  /\ More(p)
  /\ CASE pc[p] = 0 -> (IF K(p) = "set" THEN CallSet(p, L(p)) ELSE CallTest(p, L(p))) /\ To(p, 1) /\ Keep
       [] pc[p] = 1 -> /\ Keep
                       /\ IF K(p) = "set" THEN RetSet(p, L(p)) /\ To(p, 2)
                          ELSE \/ RetTest(p, L(p), 0) /\ To(p, 2)
                               \/ RetTest(p, L(p), 1) /\ NextSection(p)
       [] pc[p] = 2 -> IssueGet(p, 1, 0, 0, <<L(p)>>, FALSE) /\ To(p, 3) /\ Keep /\ UNCHANGED lockVars
       [] pc[p] = 3 -> /\ \E v \in UNION {Results(o) : o \in Of(p, 1)} :
                            ReturnFetched(p, 1, <<v>>) /\ bad' = (bad \/ v # lastw[L(p)])
                       /\ To(p, 4) /\ UNCHANGED <<lockVars, lastw>>
       [] pc[p] = 4 -> /\ IssuePut(p, 2 + at[p], 0, 0, <<L(p)>>, <<V(p)>>, FALSE)
                       /\ lastw' = [lastw EXCEPT ![L(p)] = V(p)] /\ To(p, 5) /\ UNCHANGED <<lockVars, bad>>
       [] pc[p] = 5 -> CallClear(p, L(p)) /\ To(p, 6) /\ Keep
       [] pc[p] = 6 -> RetClear(p, L(p)) /\ NextSection(p) /\ Keep
Network == /\ \E o \in ops : Deliver(o.t, o.c, Val(<<o.t, o.c>>), Eff(o, Val(<<o.t, o.c>>)))
           /\ UNCHANGED <<lockVars, prog, pc, at, lastw, bad>>
Done == (\A p \in Pes : ~More(p)) /\ UNCHANGED gvars
Next == (\E p \in Pes : Step(p)) \/ Network \/ Done
Spec == Init /\ [][Next]_gvars
\* logical times only matter through their order
View == <<mem, ops, lk, {<<r.p, r.l, r.k, r.busy>> : r \in lq}, prog, pc, at, lastw, bad>>
Emit == IF Emitting /\ (\A p \in Pes : pc[p] = 0 /\ at[p] = 1) THEN PrintT(<<"PLAN", ToJson([p |-> [i \in 1..NPes |-> prog[i - 1]]])>>) ELSE TRUE
--------------------------------------------------------------------------
Inside(l) == {p \in Pes : More(p) /\ L(p) = l /\ pc[p] \in 2..5}
Exclusive == \A l \in Locks : Cardinality(Inside(l)) <= 1
Owned == \A l \in Locks : \A p \in Inside(l) : ~Free(l) /\ lk[l] = p
Visible == ~bad
==========================================================================
