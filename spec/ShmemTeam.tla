----------------------------- MODULE ShmemTeam -----------------------------
(* Teams: which PEs a split puts into a team, their ranks, translations.   *)
EXTENDS ShmemColl
VARIABLES
  tm,     \* <<pe, handle>> -> the PEs of the team in rank order (absent: invalid)
  tcf,    \* <<pe, handle>> -> the number of contexts asked for
  npes,   \* the number of PEs
  ppn     \* how many consecutive PEs share a node
teamVars == <<tm, tcf, npes, ppn>>
TeamInit(n, k) == tm = <<>> /\ tcf = <<>> /\ npes = n /\ ppn = k

All == [i \in 1..npes |-> i - 1]
\* handle 0: world, 1: shared (the PEs of the node), < 0: invalid
Shared(p) == SelectSeq(All, LAMBDA q : q \div ppn = p \div ppn)
Members(p, t) == IF t < 0 THEN <<>> ELSE IF t = 0 THEN All ELSE IF t = 1 THEN Shared(p) ELSE Get(tm, <<p, t>>, <<>>)
InTeam(m, p) == \E i \in 1..Len(m) : m[i] = p

SplitOk(m, start, stride, size) ==
  /\ m # <<>> /\ size >= 1 /\ stride >= 1
  /\ start >= 0 /\ start < Len(m)
  /\ size > 1 => stride <= (Len(m) - 1 - start) \div (size - 1)
Strided(m, start, stride, size) == [i \in 1..size |-> m[start + (i - 1) * stride + 1]]

XTeam(m, p, xr) ==
  LET r == Rank(m, p) - 1
      y == r \div xr
      n == Min2(xr, Len(m) - y * xr)
  IN [i \in 1..n |-> m[y * xr + i]]
YTeam(m, p, xr) ==
  LET r == Rank(m, p) - 1
      x == r % xr
      n == (Len(m) - x - 1) \div xr + 1
  IN [i \in 1..n |-> m[x + (i - 1) * xr + 1]]

\* what the queries on a team with members m report to PE p: size, rank, translations to world
Report(rc, m, p) ==
  IF InTeam(m, p) THEN <<rc, Len(m), Rank(m, p) - 1>> \o m ELSE <<rc, -1, -1>>
Without(f, a) == [b \in DOMAIN f \ {a} |-> f[b]]
Put(p, w, m, cf) == IF InTeam(m, p) THEN tm' = Set(tm, <<p, w>>, m) /\ tcf' = Set(tcf, <<p, w>>, cf)
                    ELSE tm' = Without(tm, <<p, w>>) /\ tcf' = Without(tcf, <<p, w>>)

Split(p, t, w, start, stride, size, cf, v) ==
  LET m == Members(p, t)
      ok == SplitOk(m, start, stride, size)
      new == IF ok THEN Strided(m, start, stride, size) ELSE <<>>
  IN /\ v = Report(IF ok THEN 0 ELSE 1, new, p)
     /\ Put(p, w, new, cf)
     /\ UNCHANGED <<npes, ppn>>

Split2(p, t, w, xr, cf, v, x) ==     \* x: the x axis, otherwise the y axis
  LET m == Members(p, t)
      ok == m # <<>> /\ xr >= 1
      new == IF ~ok THEN <<>> ELSE IF x THEN XTeam(m, p, xr) ELSE YTeam(m, p, xr)
  IN /\ v = Report(IF ok THEN 0 ELSE 1, new, p)
     /\ Put(p, w, new, cf)
     /\ UNCHANGED <<npes, ppn>>

DestroyTeam(p, t) ==
  /\ tm' = IF t > 1 THEN Without(tm, <<p, t>>) ELSE tm
  /\ tcf' = IF t > 1 THEN Without(tcf, <<p, t>>) ELSE tcf
  /\ UNCHANGED <<npes, ppn>>

Query(p, t) == IF InTeam(Members(p, t), p) THEN <<Len(Members(p, t)), Rank(Members(p, t), p) - 1>> ELSE <<-1, -1>>
\* the configuration of a team which a split has made; there is none of the invalid team
ConfigOk(p, t, v) == IF <<p, t>> \in DOMAIN tcf THEN v = <<0, tcf[<<p, t>>]>> ELSE v[1] # 0
Translate(p, t, pe, u) ==
  LET m == Members(p, t)
      n == Members(p, u)
  IN IF m = <<>> \/ n = <<>> \/ pe < 0 \/ pe >= Len(m) THEN -1
     ELSE IF InTeam(n, m[pe + 1]) THEN Rank(n, m[pe + 1]) - 1 ELSE -1
=============================================================================
