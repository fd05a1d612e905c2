----------------------------- MODULE GenSpace -----------------------------
(* Clients of the memory spaces: every order of creating, attaching,       *)
(* detaching and destroying spaces, of creating and destroying contexts on *)
(* them, and of allocating in them, within the bounds.  All PEs do the same*)
(* (the calls are collective), so one PE stands for all.                   *)
EXTENDS ShmemInit, Json
CONSTANTS NSpaces, Pages, MaxCtx, MaxBlocks, MaxDepth, Emitting
VARIABLES plan
gvars == <<memVars, lockVars, collVars, teamVars, heapVars, initVars, plan>>
Init == /\ MemInit /\ LockInit /\ CollInit /\ TeamInit(1, 1) /\ HeapInit(65536) /\ InitInit(3)
        /\ plan = <<>>

Did(a) == plan' = Append(plan, a)
Op(o, s, a, b) == [o |-> o, s |-> s, a |-> a, b |-> b]
Used(f) == {a[2] : a \in DOMAIN f}
InSpace(s) == {a \in DOMAIN blk : blk[a].x = s}
CtxOf(s) == {a \in DOMAIN cx : cx[a] = s}
LeastFree(S, lo) == CHOOSE i \in lo..(lo + 40) : i \notin S /\ \A j \in lo..(i - 1) : j \in S

Create == \E nc \in 0..MaxCtx :
  LET s == LeastFree(Used(sp), 0) IN
  /\ s < NSpaces
  /\ SpaceCreate(0, s, Pages * PageSize, nc) /\ Did(Op("create", s, nc, 0))
Attach == \E s \in Used(sp) :
  /\ ~Space(0, s).att
  /\ SpaceAttach(0, s, TRUE) /\ Did(Op("attach", s, 0, 0)) /\ UNCHANGED heapVars
Detach == \E s \in Used(sp) :
  /\ Space(0, s).att /\ CtxOf(s) = {}
  /\ SpaceAttach(0, s, FALSE) /\ Did(Op("detach", s, 0, 0)) /\ UNCHANGED heapVars
Destroy == \E s \in Used(sp) :
  /\ ~Space(0, s).att /\ InSpace(s) = {}
  /\ SpaceDestroy(0, s) /\ Did(Op("destroy", s, 0, 0)) /\ UNCHANGED heapVars
NewCtx == \E s \in Used(sp) :
  LET x == LeastFree(Used(cx), 1) IN
  /\ Space(0, s).att
  /\ \E v \in {0, 1} : SpaceCtx(0, s, x, v) /\ Did(Op("ctx", s, x, v)) /\ UNCHANGED heapVars
EndCtx == \E x \in Used(cx) : CtxDestroy(0, x) /\ Did(Op("ctxdel", cx[<<0, x>>], x, 0)) /\ UNCHANGED heapVars
\* one or all of the pages
Allocate == \E s \in Used(sp), n \in {1, Pages} :
  LET b == LeastFree(Used(blk), 0) IN
  /\ b < MaxBlocks
  /\ \E v \in {<<0, 0, 0>>} \cup {<<1, i * PageSize, 0>> : i \in 0..(Pages - n)} :
       Alloc(0, b, "malloc", n * PageSize, 0, s, v) /\ Did(Op("alloc", s, b, n))
  /\ UNCHANGED initVars
Release == \E b \in Used(blk) : FreeBlk(0, b) /\ Did(Op("free", blk[<<0, b>>].x, b, 0)) /\ UNCHANGED initVars

Next == /\ Len(plan) < MaxDepth
        /\ UNCHANGED <<memVars, lockVars, collVars, teamVars>>
        /\ Create \/ Attach \/ Detach \/ Destroy \/ NewCtx \/ EndCtx \/ Allocate \/ Release
Spec == Init /\ [][Next]_gvars
View == <<sp, cx, blk>>
Emit == IF Emitting THEN PrintT(<<"PLAN", ToJson(plan')>>) ELSE TRUE
--------------------------------------------------------------------------
\* blocks lie in a space that exists, do not overlap, and stay within its pages
Blocks == \A a, b \in DOMAIN blk :
  /\ <<0, blk[a].x>> \in DOMAIN sp
  /\ a # b /\ blk[a].x = blk[b].x => blk[a].off + blk[a].n <= blk[b].off \/ blk[b].off + blk[b].n <= blk[a].off
Within == \A s \in Used(sp) : LET S == {blk[a] : a \in InSpace(s)} IN
  S = {} \/ Greatest({b.off + b.n : b \in S}) - Least({b.off : b \in S}) <= Pages * PageSize
\* contexts exist only on attached spaces, never more than the space was created with
Contexts == \A s \in Used(sp) : /\ Cardinality(CtxOf(s)) = Space(0, s).used /\ Space(0, s).used <= Space(0, s).nctx
                                /\ Space(0, s).used > 0 => Space(0, s).att
\* what can be reached: the blocks in attached spaces
Reach2 == \A b \in Used(blk) : Accessible(0, b, 0) = (IF Space(0, blk[<<0, b>>].x).att THEN 1 ELSE 0)
\* a pool from which everything was given back can be used completely again
AllBack == \A s \in Used(sp) : InSpace(s) = {} => Fits(0, s, Pages * PageSize)
==========================================================================
