----------------------------- MODULE GenColl -----------------------------
(* Clients of the collectives: every collective over every set of PEs with *)
(* every count, root and pair of strides within the bounds.  The invariants*)
(* state the results in another way than ShmemColl does: position by       *)
(* position, and through identities.  The calls are printed and replayed.  *)
EXTENDS ShmemColl, Json
CONSTANTS NPes, MaxN, MaxStride, Kinds, Emitting
VARIABLES pl, stage, res
gvars == <<memVars, lockVars, collVars, pl, stage, res>>

Pes == 0..(NPes - 1)
\* start, stride, size; active sets have strides 1, 2, 4, ...
Sets == {s \in Pes \X (1..NPes) \X (1..NPes) : s[1] + (s[3] - 1) * s[2] < NPes /\ (s[3] = 1 => s[2] = 1)}
ASets == {s \in Sets : s[2] \in {1, 2, 4, 8}}
Mem(s) == [i \in 1..s[3] |-> s[1] + (i - 1) * s[2]]
Base(K, T, S, n, r, d1, d2) == [k |-> K, team |-> T, s |-> S, n |-> n, r |-> r, ds |-> d1, ss |-> d2, cnt |-> <<>>]
Form == {<<TRUE, s>> : s \in Sets} \cup {<<FALSE, s>> : s \in ASets}
Plans == UNION {
  CASE K = "broadcast" -> {Base(K, f[1], f[2], n, r, 1, 1) : f \in Form, n \in 0..MaxN, r \in Pes}
    [] K = "alltoalls" -> {Base(K, f[1], f[2], n, 0, d, e) : f \in Form, n \in 0..MaxN, d \in 1..MaxStride, e \in 1..MaxStride}
    [] K = "collect" -> UNION {{[Base(K, f[1], f[2], 0, 0, 1, 1) EXCEPT !.cnt = c] : c \in [1..f[2][3] -> 0..MaxN]} : f \in Form}
    [] OTHER -> {Base(K, f[1], f[2], n, 0, 1, 1) : f \in Form, n \in 0..MaxN}
  : K \in Kinds}

SrcCell == 0
DstCell == 100
\* what the sources contain (small numbers, different for every PE and position)
Val0(p, i) == ((p * 5 + i * 3 + 2) % 7) + 1
Init == /\ pl \in {p \in Plans : p.r < p.s[3]}
        /\ mem = [a \in {<<p, c>> : p \in Pes, c \in 0..40} |-> Val0(a[1], a[2])]
        /\ ops = {} /\ fin = {} /\ ep = <<>> /\ ent = <<>>
        /\ LockInit /\ CollInit
        /\ stage = 0 /\ res = <<>>
M == Mem(pl.s)
G(i) == [k |-> pl.k, src |-> SrcCell, dst |-> DstCell, n |-> IF pl.k = "collect" THEN pl.cnt[i] ELSE pl.n, r |-> pl.r,
         ds |-> pl.ds, ss |-> pl.ss, team |-> pl.team]
Key == <<"k">>
Next ==
  /\ UNCHANGED pl
  /\ stage' = stage + 1
  /\ CASE stage < Len(M) -> CollEnter(M[stage + 1], Key, M, G(stage + 1)) /\ UNCHANGED res
       [] stage = Len(M) -> /\ \A i \in 1..Len(M) : \A q \in Needs(M[i], M, G(i)) : Has(M[i], q)
                            /\ res' = [i \in 1..Len(M) |-> Expected(M[i], M, G(i), pl.team)]
                            /\ UNCHANGED <<memVars, lockVars, collVars>>
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_gvars
Emit == IF Emitting /\ stage = 0 THEN PrintT(<<"PLAN", ToJson(pl)>>) ELSE TRUE
--------------------------------------------------------------------------
Over == stage = Len(M) + 1
Src0(i, j) == Val0(M[i], j)         \* element j (from 0) of the i-th participant's source
Broadcast == Over /\ pl.k = "broadcast" =>
  \A i \in 1..Len(M) : IF i = pl.r + 1 /\ ~pl.team THEN res[i] = <<>>
                       ELSE DOMAIN res[i] = 1..pl.n /\ \A j \in 1..pl.n : res[i][j] = Src0(pl.r + 1, j - 1)
Same == Over /\ pl.k \in {"collect", "fcollect"} \cup Reductions => \A i, k \in 1..Len(M) : res[i] = res[k]
RECURSIVE Off(_)
Off(i) == IF i = 1 THEN 0 ELSE Off(i - 1) + G(i - 1).n
Concat == Over /\ pl.k \in {"collect", "fcollect"} =>
  /\ Len(res[1]) = Off(Len(M)) + G(Len(M)).n
  /\ \A i \in 1..Len(M) : \A j \in 0..(G(i).n - 1) : res[1][Off(i) + j + 1] = Src0(i, j)
Transposed == Over /\ pl.k = "alltoall" =>
  \A i, k \in 1..Len(M) : \A j \in 0..(pl.n - 1) : res[i][(k - 1) * pl.n + j + 1] = Src0(k, (i - 1) * pl.n + j)
TransposedS == Over /\ pl.k = "alltoalls" =>
  \A i, k \in 1..Len(M) :
    /\ Cardinality(DOMAIN res[i]) = pl.n * Len(M)
    /\ \A j \in 0..(pl.n - 1) : res[i][((k - 1) * pl.n + j) * pl.ds + 1] = Src0(k, ((i - 1) * pl.n + j) * pl.ss)
\* the order of the participants does not matter to a reduction
RECURSIVE Back(_, _)
Back(i, j) == IF i = 1 THEN Src0(1, j) ELSE Op2(pl.k, Src0(i, j), Back(i - 1, j))
Commutes == Over /\ pl.k \in Reductions => \A j \in 1..pl.n : res[1][j] = Back(Len(M), j - 1)
Extremes == Over /\ pl.k \in {"min", "max"} => \A j \in 1..pl.n :
  /\ \E i \in 1..Len(M) : res[1][j] = Src0(i, j - 1)
  /\ \A i \in 1..Len(M) : IF pl.k = "min" THEN res[1][j] <= Src0(i, j - 1) ELSE res[1][j] >= Src0(i, j - 1)
==========================================================================
