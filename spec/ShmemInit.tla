----------------------------- MODULE ShmemInit -----------------------------
(* Spaces and their contexts, and the life cycle of the library and of the *)
(* MPI below it.                                                           *)
EXTENDS ShmemHeap
CONSTANTS ConfLevel     \* the thread level the library was configured for
VARIABLES
  sp,    \* <<pe, space>> -> [size, nctx, att, used]
  cx,    \* <<pe, ctx slot>> -> its space
  mst,   \* pe -> "no" | "up" | "down": the MPI below
  lvl,   \* pe -> thread level the library promised (set by the first initialisation)
  mlvl,  \* pe -> [l, app]: the thread level of MPI, and whether the program initialised it
  ini,   \* the PEs that have initialised the library
  lim    \* highest thread level of the MPI below
initVars == <<sp, cx, mst, lvl, mlvl, ini, lim>>
InitInit(tmax) == sp = <<>> /\ cx = <<>> /\ mst = <<>> /\ lvl = <<>> /\ mlvl = <<>> /\ ini = {} /\ lim = tmax

Lowest(a, b) == IF a < b THEN a ELSE b
--------------------------------------------------------------------------
(* Spaces *)
Space(p, s) == sp[<<p, s>>]
HasSpace(p, s) == <<p, s>> \in DOMAIN sp
SpaceCreate(p, s, size, nctx) ==
  /\ sp' = Set(sp, <<p, s>>, [size |-> size, nctx |-> nctx, att |-> FALSE, used |-> 0])
  /\ pool' = Set(pool, s, [size |-> size, nctx |-> nctx])
  /\ blk' = [b \in {c \in DOMAIN blk : ~(c[1] = p /\ blk[c].x = s)} |-> blk[b]]
  /\ UNCHANGED <<ares, acnt, cx, mst, lvl, mlvl, ini, lim>>
SpaceAttach(p, s, on) ==
  /\ sp' = [sp EXCEPT ![<<p, s>>].att = on]
  /\ UNCHANGED <<cx, mst, lvl, mlvl, ini, lim>>
SpaceDestroy(p, s) ==
  /\ sp' = [b \in DOMAIN sp \ {<<p, s>>} |-> sp[b]]
  /\ UNCHANGED <<cx, mst, lvl, mlvl, ini, lim>>
\* v: 0 created, 1 SHMEM_NO_CTX
SpaceCtx(p, s, x, v) ==
  LET r == Space(p, s) IN
  /\ v = IF r.att /\ r.used < r.nctx THEN 0 ELSE 1
  /\ sp' = IF v = 0 THEN [sp EXCEPT ![<<p, s>>].used = @ + 1] ELSE sp
  /\ cx' = IF v = 0 THEN Set(cx, <<p, x>>, s) ELSE cx
  /\ UNCHANGED <<mst, lvl, mlvl, ini, lim>>
CtxDestroy(p, x) ==
  /\ sp' = [sp EXCEPT ![<<p, cx[<<p, x>>]>>].used = @ - 1]
  /\ cx' = [b \in DOMAIN cx \ {<<p, x>>} |-> cx[b]]
  /\ UNCHANGED <<mst, lvl, mlvl, ini, lim>>

\* which addresses can be accessed
Accessible(p, s, t) ==
  IF <<p, s>> \notin DOMAIN blk THEN 1        \* nothing was asked
  ELSE IF t < 0 \/ t >= npes THEN 0
  ELSE LET x == blk[<<p, s>>].x IN IF x < 0 THEN 1 ELSE IF HasSpace(p, x) /\ Space(p, x).att THEN 1 ELSE 0

(* v: for addresses around the ends of the exposed memory, whether the      *)
(* network reaches the address, and whether it is reported as accessible.   *)
ReachableOnly(p, t, v) ==
  /\ Len(v) % 2 = 0
  /\ \A i \in 1..(Len(v) \div 2) : v[2 * i] = IF t \in 0..(npes - 1) THEN v[2 * i - 1] ELSE 0

--------------------------------------------------------------------------
(* Initialisation *)
Up(p) == Get(mst, p, "no") = "up"
\* MPI is initialised at most once, by the library or before it by the program
MpiInit(p, v, app) ==
  /\ Get(mst, p, "no") = "no"
  /\ mst' = Set(mst, p, "up")
  /\ mlvl' = Set(mlvl, p, [l |-> v, app |-> app])
  /\ UNCHANGED <<sp, cx, lvl, ini, lim>>
MpiFinal(p) ==
  /\ Up(p)
  /\ mst' = Set(mst, p, "down")
  /\ UNCHANGED <<sp, cx, lvl, mlvl, ini, lim>>

\* the best level that can be offered: what MPI is able to give, or has given to the program
Top(p) == Lowest(ConfLevel, IF mlvl[p].app THEN mlvl[p].l ELSE lim)
\* the level may be higher than asked for, never higher than what MPI was initialised with
Promised(p, req) == {l \in 0..Lowest(ConfLevel, mlvl[p].l) : l >= Lowest(req, Top(p))}
\* the first initialisation decides the level
RetInit(p, req, up, v) ==
  LET rep == p \in ini \/ (up /\ ~mlvl[p].app) IN
  /\ Up(p)
  /\ IF Len(v) = 0
     THEN lvl' = lvl
     ELSE /\ IF p \in DOMAIN lvl THEN v[1] = lvl[p]
             ELSE IF rep THEN v[1] \in Promised(p, 0) ELSE v[1] \in Promised(p, req)
          /\ (v[2] = 0) = (req <= v[1])
          /\ lvl' = Set(lvl, p, v[1])
  /\ ini' = ini \cup {p}
  /\ UNCHANGED <<sp, cx, mst, mlvl, lim>>

Mask(n) == 2^(n + 1) - 2
QueryResult(p, v) ==
  /\ p \in DOMAIN lvl => v[1] = lvl[p]
  /\ v[1] \in Promised(p, 0)
  /\ v[2] = p /\ v[3] = npes /\ v[4] = p /\ v[5] = npes
  /\ v[6] = 1 /\ v[7] = 4 /\ v[8] = 1
  /\ v[9] = Mask(npes)
  /\ lvl' = Set(lvl, p, v[1])
  /\ UNCHANGED <<sp, cx, mst, mlvl, ini, lim>>
=============================================================================
