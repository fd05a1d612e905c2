------------------------------ MODULE GenBusy ------------------------------
(* Progress: a PE that waits inside of a call serves the operations which  *)
(* others direct to it, and a PE outside of the library serves nothing.    *)
(*                                                                         *)
(* A chain of PEs 0..N-1.  PE i carries out a sequence of operations on    *)
(* its successors (each needs its target to be inside of a call), then     *)
(* lets the call in which PE i+1 waits come to its end, then does so for   *)
(* the next; it may have waited itself before, for PE i-1.                 *)
(* Every kind of waiting call and sequence of operations within the bounds.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NPes, MaxOps, Flagged, Locked, Joined, Kinds, Deaf, Emitting
VARIABLES pl, pc, st, let
vars == <<pl, pc, st, let>>
Pes == 0..(NPes - 1)
Waits == Flagged \cup Locked \cup Joined
Seqs == UNION {[1..k -> Kinds] : k \in 1..MaxOps}
\* the call in which PE i > 0 waits, and what PE i < N-1 does to its successors meanwhile
Plans == {p \in [w : [1..(NPes - 1) -> Waits], s : [1..(NPes - 1) -> Seqs]] :
            \* the members of a collective call have to make the same call
            \A i \in 1..(NPes - 1) : p.w[i] \in Joined => \A j \in 1..(NPes - 1) : p.w[j] = p.w[i]}
Collective == \E i \in 1..(NPes - 1) : pl.w[i] \in Joined

(* st: where a PE is: "wait" in its waiting call, "op" in an operation,     *)
(* "out" computing, "end" in the last barrier of the program.               *)
(* pc: waiting done? and number of operations done                          *)
Init == /\ pl \in Plans
        /\ pc = [p \in Pes |-> IF p = 0 \/ Collective THEN 0 ELSE 0 - 1]
        /\ st = [p \in Pes |-> "out"]
        /\ let = {0}                          \* the PEs whose wait may end
Todo(p) == IF p = NPes - 1 THEN <<>> ELSE pl.s[p + 1]
\* PE 0 starts; in a collective program nobody else has operations
Count(p) == IF Collective /\ p > 0 THEN 0 ELSE Len(Todo(p))
Serves(p) == /\ st[p] # "out"
             /\ ~(st[p] = "wait" /\ (IF p = 0 THEN FALSE ELSE pl.w[p] \in Deaf))
Move(p, s, c) == st' = [st EXCEPT ![p] = s] /\ pc' = [pc EXCEPT ![p] = c] /\ UNCHANGED pl

\* PE p > 0 enters its waiting call and leaves it when it may; in a collective program all wait, at the end
Enter(p) == /\ st[p] = "out"
            /\ IF Collective THEN pc[p] = Count(p) ELSE pc[p] = 0 - 1
            /\ Move(p, "wait", pc[p]) /\ let' = (IF Collective THEN let \cup {p} ELSE let)
Leave(p) == /\ st[p] = "wait"
            /\ IF Collective THEN let = Pes /\ \A q \in Pes : st[q] # "out" ELSE p \in let
            /\ IF Collective THEN Move(p, "end", pc[p]) ELSE Move(p, "out", 0)
            /\ UNCHANGED let
\* the target of the k-th operation of p: its successors in turn
Target(p, k) == p + 1 + (k % (NPes - 1 - p))
Issue(p) == /\ st[p] = "out" /\ pc[p] >= 0 /\ pc[p] < Count(p)
            /\ Move(p, "op", pc[p]) /\ UNCHANGED let
Served(p) == /\ st[p] = "op" /\ Serves(Target(p, pc[p]))
             /\ Move(p, "out", pc[p] + 1) /\ UNCHANGED let
\* the operations are done: let the successor go on
Release(p) == /\ ~Collective /\ st[p] = "out" /\ pc[p] = Count(p)
              /\ Move(p, "end", pc[p]) /\ let' = let \cup {p + 1}
Done == (\A p \in Pes : st[p] = "end") /\ UNCHANGED vars
Step(p) == Enter(p) \/ Leave(p) \/ Issue(p) \/ Served(p) \/ Release(p)
Next == (\E p \in Pes : Step(p)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A p \in Pes : WF_vars(Step(p))
--------------------------------------------------------------------------
\* every program ends (TLC looks for deadlocks as well)
Ends == <>(\A p \in Pes : st[p] = "end")
\* nobody gets past a call that waits for others before they have let it
Held == \A p \in Pes : p > 0 /\ ~Collective /\ pc[p] >= 0 => p \in let
Emit == IF Emitting /\ st = [p \in Pes |-> "out"] /\ let = {0} /\ st'[0] # "out" THEN PrintT(<<"PLAN", ToJson(pl)>>) ELSE TRUE
==========================================================================
