----------------------------- MODULE GenTeam -----------------------------
(* Clients of the team interface: every split of every team that two       *)
(* successive splits can produce, from every parent, with every argument   *)
(* within the bounds.  The invariants state what the splits guarantee; the *)
(* calls of every transition are printed, and replayed in the library.     *)
EXTENDS ShmemTeam, Json
CONSTANTS NPes, NPpn, MaxDepth, Emitting
VARIABLES plan
genVars == <<memVars, lockVars, collVars, teamVars, plan>>

Init == /\ MemInit /\ LockInit /\ CollInit /\ TeamInit(NPes, NPpn)
        /\ plan = <<>>

Pes == 0..(NPes - 1)
Handles == {0, 1} \cup {h[2] : h \in DOMAIN tm}
Next1 == 2 + 2 * Len(plan)
Callers(t) == {p \in Pes : InTeam(Members(p, t), p)}

\* all members of the parent call together
SplitAll(t, w, st, sd, sz) ==
  tm' = [a \in DOMAIN tm \cup {<<p, w>> : p \in {q \in Callers(t) :
            LET m == Members(q, t) IN SplitOk(m, st, sd, sz) /\ InTeam(Strided(m, st, sd, sz), q)}} |->
         IF a \in DOMAIN tm THEN tm[a] ELSE Strided(Members(a[1], t), st, sd, sz)]
Split2All(t, w, y, xr) ==
  tm' = IF xr < 1 THEN tm
        ELSE [a \in DOMAIN tm \cup {<<p, w>> : p \in Callers(t)} \cup {<<p, y>> : p \in Callers(t)} |->
               IF a \in DOMAIN tm THEN tm[a]
               ELSE IF a[2] = w THEN XTeam(Members(a[1], t), a[1], xr) ELSE YTeam(Members(a[1], t), a[1], xr)]

\* (a team of one member with a stride of no meaning: the standard does not say)
Args == {a \in (-1..NPes) \X (-1..NPes) \X (-1..(NPes + 1)) : ~(a[3] = 1 /\ a[2] < 1)}
New == {a \in DOMAIN tm' : a \notin DOMAIN tm}
DoSplit == \E t \in Handles, a \in Args :
  /\ Callers(t) # {}
  /\ (t = 1 => NPpn < NPes)
  /\ SplitAll(t, Next1, a[1], a[2], a[3])
  /\ plan' = Append(plan, [o |-> "s", t |-> t, w |-> Next1, y |-> 0, a |-> a, pes |-> Callers(t), new |-> New])
DoSplit2 == \E t \in Handles, xr \in {-1, 0} \cup 1..(NPes + 1) :
  /\ Callers(t) # {}
  /\ (t = 1 => NPpn < NPes)
  /\ Split2All(t, Next1, Next1 + 1, xr)
  /\ plan' = Append(plan, [o |-> "2", t |-> t, w |-> Next1, y |-> Next1 + 1, a |-> <<xr>>, pes |-> Callers(t), new |-> New])

\* a second split only of what the first has produced
Fresh2 == Len(plan) = 1 => plan'[2].t >= 2
Next == /\ Len(plan) < MaxDepth
        /\ DoSplit \/ DoSplit2
        /\ Fresh2
        /\ UNCHANGED <<memVars, lockVars, collVars, tcf, npes, ppn>>
Spec == Init /\ [][Next]_genVars

\* two plans that lead to the same teams are equivalent
View == <<Len(plan), {<<a[1], a[2], tm[a]>> : a \in DOMAIN tm}>>
Emit == IF Emitting THEN PrintT(<<"PLAN", ToJson(plan')>>) ELSE TRUE
--------------------------------------------------------------------------
\* every member of a team sees the same team, which has it as a member exactly once
Agreement == \A a \in DOMAIN tm :
  /\ InTeam(tm[a], a[1])
  /\ \A i, j \in 1..Len(tm[a]) : i # j => tm[a][i] # tm[a][j]
  /\ \A i \in 1..Len(tm[a]) : LET q == tm[a][i] IN <<q, a[2]>> \in DOMAIN tm /\ tm[<<q, a[2]>>] = tm[a]
\* ranks follow the order of the world, and members are those of the parent
Ordered2 == \A a \in DOMAIN tm : \A i, j \in 1..Len(tm[a]) : i < j => tm[a][i] < tm[a][j]
\* the axes of a two-dimensional split cut the parent into rows and columns
Ran2(m) == {m[k] : k \in 1..Len(m)}
Grid == \A i \in 1..Len(plan) : plan[i].o = "2" /\ plan[i].a[1] >= 1 =>
  LET w == plan[i].w  y == plan[i].y IN
  \A p \in plan[i].pes :
    /\ Ran2(tm[<<p, w>>]) \cap Ran2(tm[<<p, y>>]) = {p}
    /\ Len(tm[<<p, w>>]) <= plan[i].a[1]
    /\ UNION {Ran2(tm[<<q, w>>]) : q \in Ran2(tm[<<p, y>>])} \subseteq Ran2(Members(p, plan[i].t))
    /\ UNION {Ran2(tm[<<q, w>>]) : q \in Ran2(Members(p, plan[i].t))} = Ran2(Members(p, plan[i].t))
\* translating there and back is the identity
ThereAndBack == \A a, b \in DOMAIN tm : a[1] = b[1] =>
  \A i \in 0..(Len(tm[a]) - 1) :
    LET j == Translate(a[1], a[2], i, b[2]) IN j >= 0 => Translate(a[1], b[2], j, a[2]) = i
WorldRank == \A a \in DOMAIN tm : \A i \in 0..(Len(tm[a]) - 1) : Translate(a[1], a[2], i, 0) = tm[a][i + 1]
==========================================================================
