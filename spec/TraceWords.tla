---------------------------- MODULE TraceWords ----------------------------
(* Checks histories of operations and reductions on full-width values:     *)
(* every value is logged as its bytes.  In these programs no two PEs use   *)
(* the same element between two barriers, and there is a barrier between   *)
(* two reductions, so every operation has exactly one result.              *)
EXTENDS Words, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, w,
          calls,  \* the call each PE is in
          con,    \* what each PE contributes to the reduction it takes part in
          teams   \* members of the teams that PEs have handles of
vars == <<tr, l, w, calls, con, teams>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr].ev
E == T[l]
N == Traces[tr].n

Init == tr \in 1..Len(Traces) /\ l = 1 /\ w = <<>> /\ calls = <<>> /\ con = <<>> /\ teams = <<>>

Known(a) == a \in DOMAIN w
SetW(a, v) == w' = (a :> v) @@ w

\* the element keeps exactly what the operation leaves in it; a fetching operation returns what was there
Amo == LET a == <<E.c[1], E.c[2]>> IN
  /\ Known(a)
  /\ LET u == w[a] v == WApply(E.k, E.a, E.b, u) IN
       /\ E.f = 1 => E.r = u
       /\ E.m = v
       /\ SetW(a, v)

Range(s) == {s[i] : i \in 1..Len(s)}
Call == /\ calls' = (E.p :> E) @@ calls
        /\ con' = IF E.o = "coll" THEN (E.p :> [k |-> E.k, t |-> E.ty, n |-> E.n, v |-> [i \in 1..E.n |-> w[<<E.p, E.c[2] + i - 1>>]]]) @@ con ELSE con
        /\ UNCHANGED <<w, teams>>
\* who takes part, as seen by p
Members(p, c) == IF c.x = 0 THEN 0..(N - 1)
                 ELSE IF c.x > 0 THEN teams[<<p, c.x>>]
                 ELSE {c.s[1] + i * 2 ^ c.s[2] : i \in 0..(c.s[3] - 1)}
RECURSIVE Fold(_, _, _, _)
Fold(k, t, S, i) == LET p == CHOOSE p \in S : TRUE
                    IN IF S = {p} THEN con[p].v[i] ELSE RApply(k, t, con[p].v[i], Fold(k, t, S \ {p}, i))
Ret ==
  IF E.p \notin DOMAIN calls THEN UNCHANGED <<w, calls, con, teams>>
  ELSE LET c == calls[E.p] IN
    /\ UNCHANGED con
    /\ IF c.o = "coll"
       THEN LET S == Members(E.p, c) IN
              /\ E.v = <<0>>
              /\ \A q \in S : q \in DOMAIN con /\ con[q].k = c.k /\ con[q].t = c.ty /\ con[q].n = c.n
              /\ w' = [a \in {<<E.p, c.c[1] + i - 1>> : i \in 1..c.n} |-> Fold(c.k, c.ty, S, a[2] - c.c[1] + 1)] @@ w
              /\ UNCHANGED <<teams, calls>>
       ELSE IF c.o = "tsplit"
       THEN /\ teams' = (<<E.p, c.w>> :> Range(SubSeq(E.v, 4, Len(E.v)))) @@ teams
            /\ UNCHANGED <<w, calls>>
       ELSE UNCHANGED <<w, calls, teams>>

Step ==
  LET e == E.e IN
  CASE e = "stw" -> SetW(<<E.p, E.c>>, E.v) /\ UNCHANGED <<calls, con, teams>>
    [] e = "amow" -> Amo /\ UNCHANGED <<calls, con, teams>>
    [] e = "rdw" -> w[<<E.p, E.c>>] = E.v /\ UNCHANGED <<w, calls, con, teams>>
    [] e = "testw" -> (E.r = 1) = WCmp(E.t, E.k, w[<<E.p, E.c>>], E.a) /\ UNCHANGED <<w, calls, con, teams>>
    [] e = "call" -> Call
    [] e = "ret" -> Ret
    [] e \in {"chg", "mpi_init", "mpi_fin", "done", "fin", "settled"} -> UNCHANGED <<w, calls, con, teams>>
    [] OTHER -> FALSE

Next == l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Reach == TLCGet(tr) < l => TLCSet(tr, l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
    IF TLCGet(i) > Len(Traces[i].ev) THEN TRUE
    ELSE /\ PrintT(<<"REJECTED", i, TLCGet(i)>>)
         /\ TRUE
=============================================================================
