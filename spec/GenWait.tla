------------------------------ MODULE GenWait ------------------------------
(* Clients of wait_until and test: PE 0 updates a word of PE 1 in a        *)
(* sequence of ways, in order; PE 1 waits for or tests a condition on it.  *)
(* Every initial value, sequence of updates, comparison and operand within *)
(* the bounds, with every interleaving and delay of the updates.           *)
EXTENDS Shmem, Json
CONSTANTS MaxOps, Vals, Operands, Kinds, Emitting
VARIABLES pl, w, r, held, got
gvars == <<memVars, pl, w, r, held, got>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
After(u, o) == Apply(o.k, o.a, 0, u)
RECURSIVE Final(_, _)
Final(u, s) == IF s = <<>> THEN u ELSE Final(After(u, Head(s)), Tail(s))
Updates == {o \in [k : Kinds, a : Vals] : o.k = "inc" => o.a = 1}
Plans == {p \in [i : Vals, s : Seqs(Updates, MaxOps), c : {"eq", "ne", "gt", "ge", "lt", "le"}, v : Operands, t : BOOLEAN] :
            \* a wait is sure to end
            p.t \/ Cmp(p.c, Final(p.i, p.s), p.v)}
X == <<1, 0>>
Init == /\ pl \in Plans /\ w = 0 /\ r = 0 /\ held = {} /\ got = "no"
        /\ mem = (X :> pl.i) /\ ops = {} /\ fin = {} /\ ep = <<>> /\ ent = <<>>

\* steps of the writer: issue, return, fence for each of the updates
Op == pl.s[(w \div 3) + 1]
Writer == /\ w < 3 * Len(pl.s) /\ w' = w + 1
          /\ UNCHANGED <<pl, r, held, got>>
          /\ CASE w % 3 = 0 -> IF Op.k = "put" THEN IssuePut(0, w, 0, 1, <<0>>, <<Op.a>>, FALSE)
                               ELSE IssueAmo(0, w, 0, 1, 0, Op.k, Op.a, 0, FALSE)
               [] w % 3 = 1 -> ReturnPut(0)
               [] OTHER -> Fence(0, 0)
Waiter == /\ UNCHANGED <<pl, w>>
          /\ \/ r = 0 /\ r' = 1 /\ IssueRead(1, 0) /\ held' = {Val(X)} /\ UNCHANGED got
             \/ /\ r = 1 /\ r' = 2 /\ UNCHANGED held
                /\ \E b \in (IF pl.t THEN BOOLEAN ELSE {TRUE}) : ReturnRead(1, pl.c, pl.v, b) /\ got' = (IF b THEN "true" ELSE "false")
Network == /\ \E u, v \in 0..9 : Deliver(1, 0, u, v) /\ held' = (IF r = 1 THEN held \cup {v} ELSE held)
           /\ UNCHANGED <<pl, w, r, got>>
Next == Writer \/ Waiter \/ Network
Spec == Init /\ [][Next]_gvars
--------------------------------------------------------------------------
\* an answer was right at some moment of the call
Justified == /\ got = "true" => \E u \in held : Cmp(pl.c, u, pl.v)
             /\ got = "false" => \E u \in held : ~Cmp(pl.c, u, pl.v)
\* whoever waits can go on while the condition holds, and a test can always return
Woken == r = 1 =>
  /\ Cmp(pl.c, Val(X), pl.v) => ENABLED ReturnRead(1, pl.c, pl.v, TRUE)
  /\ pl.t => \E b \in BOOLEAN : ENABLED ReturnRead(1, pl.c, pl.v, b)
\* nothing is left over: when all is said and delivered the word has its final value, and nobody is stuck
Delivered == \A o \in ops : o.k = "rd" \/ o.d \/ \E u \in o.vals : Eff(o, u) = u
Ended == w = 3 * Len(pl.s) /\ ~ENABLED Network => Val(X) = Final(pl.i, pl.s) \/ \E o \in ops : o.k # "rd" /\ ~o.d
Emit == IF Emitting /\ r = 1 /\ r' = 2 THEN PrintT(<<"PLAN", ToJson(pl)>>) ELSE TRUE
==========================================================================
