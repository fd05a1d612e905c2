----------------------------- MODULE ShmemColl -----------------------------
(* Collective operations: what every participant's destination contains    *)
(* when its call returns, as a function of what the participants'          *)
(* sources contained when they entered the call.                           *)
EXTENDS ShmemLock, SequencesExt
VARIABLES
  crec,  \* <<key, instance, pe>> -> arguments and source contents at entry
  cin    \* pe -> <<key, instance>> of the collective it is in
collVars == <<crec, cin>>
CollInit == crec = <<>> /\ cin = <<>>

\* members: the PEs of the set, in rank order;  g: arguments
Rank(members, p) == CHOOSE i \in 1..Len(members) : members[i] = p
SrcLen(g, size) ==
  CASE g.k \in {"alltoall"} -> g.n * size
    [] g.k = "alltoalls" -> IF g.n = 0 THEN 0 ELSE (g.n * size - 1) * g.ss + 1
    [] OTHER -> g.n
Src(p, g, size) == [i \in 1..SrcLen(g, size) |-> Val(<<p, g.src + i - 1>>)]

CollEnter(p, key, members, g) ==
  LET n == Get(ent, <<p, key>>, 0) + 1 IN
  /\ crec' = Set(crec, <<key, n, p>>, [g |-> g, s |-> Src(p, g, Len(members)), m |-> members, out |-> FALSE])
  /\ cin' = Set(cin, p, <<key, n>>)
  /\ ent' = Set(ent, <<p, key>>, n)
  /\ UNCHANGED <<mem, ops, fin, ep, lockVars>>

Rec(p, r) == crec[<<cin[p][1], cin[p][2], r>>]
Has(p, r) == <<cin[p][1], cin[p][2], r>> \in DOMAIN crec

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Op2(k, a, b) == CASE k = "sum" -> a + b [] k = "prod" -> a * b [] k = "min" -> Min2(a, b) [] k = "max" -> Max2(a, b)
                  [] k = "and" -> a & b [] k = "or" -> a | b [] OTHER -> a ^^ b
Reductions == {"sum", "prod", "min", "max", "and", "or", "xor"}

(* The destination after the call: a function from offset to value.        *)
(* team: broadcast over a team also writes the root's destination, over an *)
(* active set it does not.                                                 *)
Expected(p, members, g, team) ==
  LET size == Len(members)
      me == Rank(members, p)
      root == members[g.r + 1]
  IN CASE g.k = "broadcast" ->
            IF p = root /\ ~team THEN <<>> ELSE [i \in 1..g.n |-> Rec(p, root).s[i]]
       [] g.k = "fcollect" \/ g.k = "collect" ->
            FlattenSeq([r \in 1..size |-> Rec(p, members[r]).s])
       [] g.k = "alltoall" ->
            [i \in 1..(g.n * size) |-> Rec(p, members[(i - 1) \div g.n + 1]).s[((me - 1) * g.n) + ((i - 1) % g.n) + 1]]
       [] g.k = "alltoalls" ->
            [i \in {1 + k * g.ds : k \in 0..(g.n * size - 1)} |->
               LET k == (i - 1) \div g.ds
               IN Rec(p, members[k \div g.n + 1]).s[(((me - 1) * g.n) + (k % g.n)) * g.ss + 1]]
       [] g.k \in Reductions ->
            [i \in 1..g.n |-> FoldLeft(LAMBDA a, r : Op2(g.k, a, Rec(p, members[r]).s[i]),
                                       Rec(p, members[1]).s[i], [r \in 1..(size - 1) |-> r + 1])]

\* the PEs whose contribution the result on p depends on
Needs(p, members, g) ==
  IF g.k = "broadcast" THEN {members[g.r + 1]} ELSE {members[i] : i \in 1..Len(members)}

CollLeave(p, members, g, team) ==
  /\ \A r \in Needs(p, members, g) : Has(p, r)
  /\ LET x == Expected(p, members, g, team)
     IN \A i \in DOMAIN x : Val(<<p, g.dst + i - 1>>) = x[i]
  /\ crec' = [crec EXCEPT ![<<cin[p][1], cin[p][2], p>>].out = TRUE]
  /\ cin' = [q \in DOMAIN cin \ {p} |-> cin[q]]
  /\ UNCHANGED <<memVars, lockVars>>

\* the elements of p's destination which a collective that is under way may change
DestLen(g, size) == CASE g.k = "alltoalls" -> (g.n * size - 1) * g.ds + 1
                      [] g.k \in {"fcollect", "alltoall"} -> g.n * size
                      [] g.k = "collect" -> 100000
                      [] OTHER -> g.n
DestCell(q, p, c) ==
  LET r == Rec(q, q)
      o == c - r.g.dst
  IN /\ p \in {r.m[i] : i \in 1..Len(r.m)}
     /\ ~(Has(q, p) /\ Rec(q, p).out)
     /\ o >= 0 /\ o < DestLen(r.g, Len(r.m))
     /\ r.g.k = "alltoalls" => o % r.g.ds = 0
     /\ r.g.k = "broadcast" /\ r.g.team = FALSE => p # r.m[r.g.r + 1]
CollWrite(p, c, u, v) ==
  /\ Val(<<p, c>>) = u
  /\ TRUE = \E q \in DOMAIN cin : DestCell(q, p, c)
  /\ Overwrite(p, c, v)
  /\ UNCHANGED <<lockVars, collVars>>
=============================================================================
