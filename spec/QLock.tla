------------------------------- MODULE QLock -------------------------------
(* The queue lock as the library implements it (src/internal/lock_impl.h): *)
(* one word "last" on the root, one word "next" with a signal bit on every *)
(* PE, accessed with one-sided atomics.  Model checked for all             *)
(* interleavings: it refines the lock of ShmemLock (mutual exclusion, hand *)
(* over in the order in which the requests reached the root) and no waiter *)
(* is lost.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pes, Rounds
VARIABLES last, nxt, sig, pc, prev, succ, todo, order
vars == <<last, nxt, sig, pc, prev, succ, todo, order>>
\* PEs are numbered from 1; 0: nobody
Init == /\ last = 0
        /\ nxt = [p \in Pes |-> 0] /\ sig = [p \in Pes |-> FALSE]
        /\ pc = [p \in Pes |-> "idle"] /\ prev = [p \in Pes |-> 0] /\ succ = [p \in Pes |-> 0]
        /\ todo = [p \in Pes |-> Rounds] /\ order = <<>>
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]

\* set_lock
Reset(p) == /\ Go(p, "idle", "swap") /\ todo[p] > 0
            /\ todo' = [todo EXCEPT ![p] = @ - 1]
            /\ nxt' = [nxt EXCEPT ![p] = 0] /\ sig' = [sig EXCEPT ![p] = FALSE]
            /\ UNCHANGED <<last, prev, succ, order>>
Swap(p) == /\ Go(p, "swap", IF last = 0 THEN "cs" ELSE "link")
           /\ prev' = [prev EXCEPT ![p] = last] /\ last' = p
           /\ order' = Append(order, p)
           /\ UNCHANGED <<nxt, sig, succ, todo>>
Link(p) == /\ Go(p, "link", "wait") /\ nxt' = [nxt EXCEPT ![prev[p]] = p]
           /\ UNCHANGED <<last, sig, prev, succ, todo, order>>
Granted(p) == /\ Go(p, "wait", "cs") /\ sig[p]
              /\ UNCHANGED <<last, nxt, sig, prev, succ, todo, order>>
\* test_lock
Test(p) == /\ todo[p] > 0 /\ pc[p] = "idle"
           /\ todo' = [todo EXCEPT ![p] = @ - 1]
           /\ IF last = 0
              THEN last' = p /\ pc' = [pc EXCEPT ![p] = "cs"] /\ order' = Append(order, p)
              ELSE UNCHANGED <<last, pc, order>>
           /\ UNCHANGED <<nxt, sig, prev, succ>>
\* clear_lock
Drop(p) == /\ Go(p, "cs", IF last = p THEN "idle" ELSE "succ")
           /\ last' = IF last = p THEN 0 ELSE last
           /\ order' = IF last = p THEN Tail(order) ELSE order
           /\ UNCHANGED <<nxt, sig, prev, succ, todo>>
Find(p) == /\ Go(p, "succ", "clean") /\ nxt[p] # 0
           /\ succ' = [succ EXCEPT ![p] = nxt[p]]
           /\ UNCHANGED <<last, nxt, sig, prev, todo, order>>
Clean(p) == /\ Go(p, "clean", "pass")
            /\ nxt' = [nxt EXCEPT ![p] = 0] /\ sig' = [sig EXCEPT ![p] = FALSE]
            /\ UNCHANGED <<last, prev, succ, todo, order>>
Pass(p) == /\ Go(p, "pass", "idle")
           /\ sig' = [sig EXCEPT ![succ[p]] = TRUE]
           /\ order' = Tail(order)
           /\ UNCHANGED <<last, nxt, prev, succ, todo>>
Step(p) == Reset(p) \/ Swap(p) \/ Link(p) \/ Granted(p) \/ Test(p) \/ Drop(p) \/ Find(p) \/ Clean(p) \/ Pass(p)
Done == (\A p \in Pes : pc[p] = "idle" /\ todo[p] = 0) /\ UNCHANGED vars
Next == (\E p \in Pes : Step(p)) \/ Done
\* a process that has something to do in a call does it
Fair == \A p \in Pes : WF_vars(Swap(p) \/ Link(p) \/ Granted(p) \/ Drop(p) \/ Find(p) \/ Clean(p) \/ Pass(p))
Spec == Init /\ [][Next]_vars /\ Fair

Holding == {p \in Pes : pc[p] \in {"cs", "succ", "clean", "pass"}}
Mutex == Cardinality(Holding) <= 1
\* the holder is the one whose request was first among those that are still there
Fifo == \A p \in Holding : order # <<>> /\ order[1] = p
Queue == \A i \in 1..Len(order) : (i < Len(order) => last # order[i]) /\ (i = Len(order) => last = order[i])
SignalledOnce == Cardinality({p \in Pes : pc[p] = "wait" /\ sig[p]} \cup Holding) <= 1
Free == order = <<>> => last = 0
\* nobody waits for ever (TLC also reports a deadlock)
Served == \A p \in Pes : (pc[p] = "swap") ~> (pc[p] = "cs")
============================================================================
