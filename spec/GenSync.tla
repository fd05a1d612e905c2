----------------------------- MODULE GenSync -----------------------------
(* Clients of barriers and syncs: a sequence of synchronisations of any    *)
(* kind on any sets of PEs; every member calls those it takes part in, in  *)
(* order.  Before each call a member updates the memory of the next PE.    *)
EXTENDS Shmem, Json
CONSTANTS NPes, MaxCalls, Emitting
VARIABLES prog, pc, at, left
gvars == <<memVars, prog, pc, at, left>>
Pes == 0..(NPes - 1)
Sets == {s \in Pes \X {0, 1} \X (1..NPes) : s[1] + (s[3] - 1) * 2^s[2] < NPes /\ (s[3] = 1 => s[2] = 0)}
Ran(s) == {s[1] + (i - 1) * 2^s[2] : i \in 1..s[3]}
Calls == {"barrier", "sync"} \X Sets
Init == /\ MemInit
        /\ prog \in UNION {[1..n -> Calls] : n \in 1..MaxCalls}
        /\ pc = [p \in Pes |-> 0] /\ at = [p \in Pes |-> 1] /\ left = {}
More(p) == at[p] <= Len(prog)
Set1(p) == prog[at[p]][2]
Kind(p) == prog[at[p]][1]
Key(i) == prog[i]
Instance1(p, i) == Cardinality({j \in 1..i : prog[j] = prog[i] /\ p \in Ran(prog[j][2])})
Step(p) ==
  /\ More(p) /\ UNCHANGED prog
  /\ IF p \notin Ran(Set1(p)) THEN at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<memVars, pc, left>>
     ELSE CASE pc[p] = 0 -> IssuePut(p, at[p], 0, (p + 1) % NPes, <<10 * p + at[p]>>, <<1>>, FALSE)
                            /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED <<at, left>>
            [] pc[p] = 1 -> Enter(p, Key(at[p]), IF Kind(p) = "barrier" THEN {0} ELSE {})
                            /\ pc' = [pc EXCEPT ![p] = 2] /\ UNCHANGED <<at, left>>
            [] pc[p] = 2 -> Leave(p, Key(at[p]), Ran(Set1(p)))
                            /\ pc' = [pc EXCEPT ![p] = 0] /\ at' = [at EXCEPT ![p] = @ + 1]
                            /\ left' = left \cup {<<p, at[p]>>}
Network == /\ \E o \in ops : Deliver(o.t, o.c, 0, 1)
           /\ UNCHANGED <<prog, pc, at, left>>
Done == (\A p \in Pes : ~More(p)) /\ UNCHANGED gvars
Next == (\E p \in Pes : Step(p)) \/ Network \/ Done
Spec == Init /\ [][Next]_gvars
Emit == IF Emitting /\ (\A p \in Pes : at[p] = 1 /\ pc[p] = 0) THEN PrintT(<<"PLAN", ToJson(prog)>>) ELSE TRUE
--------------------------------------------------------------------------
Entered(p, i) == at[p] > i \/ (at[p] = i /\ pc[p] = 2)
\* who has left a synchronisation knows that all the members have come to it
Together == \A x \in left : \A q \in Ran(prog[x[2]][2]) : Entered(q, x[2])
\* and after a barrier their updates are there
Complete == \A x \in left : prog[x[2]][1] = "barrier" =>
  \A q \in Ran(prog[x[2]][2]) : \A i \in 1..x[2] : q \in Ran(prog[i][2]) => Val(<<(q + 1) % NPes, 10 * q + i>>) = 1
==========================================================================
