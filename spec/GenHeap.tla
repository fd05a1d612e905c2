------------------------------ MODULE GenHeap ------------------------------
(* Clients of the symmetric heap: every sequence of allocations of every   *)
(* kind, reallocations and releases within the bounds, with every place    *)
(* where the blocks may lie.  All PEs do the same (the calls are           *)
(* collective), so one PE stands for all.  Sizes are in units; the heap    *)
(* has room for Units of them besides the allocator's bookkeeping.         *)
EXTENDS ShmemHeap, Json
CONSTANTS Units, MaxBlocks, MaxDepth, Kinds, Emitting
VARIABLES plan
gvars == <<memVars, lockVars, collVars, teamVars, heapVars, plan>>
U == 16384
HeapBytes == Units * U + Reserve(-1)
Init == /\ MemInit /\ LockInit /\ CollInit /\ TeamInit(1, 1) /\ HeapInit(HeapBytes) /\ plan = <<>>

Did(o, s, n) == plan' = Append(plan, [o |-> o, s |-> s, n |-> n])
Slots == {a[2] : a \in DOMAIN blk}
FreeSlot == CHOOSE i \in 0..MaxBlocks : i \notin Slots /\ \A j \in 0..(i - 1) : j \in Slots
Answers(n) == {<<0, 0, 0>>} \cup {<<1, i * U, 0>> : i \in 0..(Units - n)}
\* what is asked for: a little less than n units, or nothing, or more than there is
Size(n) == IF n = 0 THEN 0 ELSE n * U - 256

Allocate == \E k \in Kinds, n \in 0..(Units + 1) : \E v \in Answers(n) :
  /\ Cardinality(Slots) < MaxBlocks
  /\ LET s == FreeSlot IN
     /\ IF k = "calloc" THEN Alloc(0, s, k, 1, Size(n), -1, v)
        ELSE Alloc(0, s, k, Size(n), IF k = "align" THEN 4096 ELSE 0, -1, v)
     /\ Did(k, s, n)
Release == \E s \in Slots : FreeBlk(0, s) /\ Did("free", s, 0)
Resize == \E s \in Slots, n \in 0..(Units + 1) : \E v \in Answers(n) : Realloc(0, s, Size(n), v) /\ Did("realloc", s, n)

Next == /\ Len(plan) < MaxDepth
        /\ UNCHANGED <<memVars, lockVars, collVars, teamVars>>
        /\ Allocate \/ Release \/ Resize
Spec == Init /\ [][Next]_gvars
View == <<blk, Len(plan), IF plan = <<>> THEN "" ELSE plan[Len(plan)].o>>
Emit == IF Emitting THEN PrintT(<<"PLAN", ToJson(plan')>>) ELSE TRUE
--------------------------------------------------------------------------
\* live blocks never share a byte, and lie within the heap
Blocks == \A a, b \in DOMAIN blk : a # b => blk[a].off + blk[a].n <= blk[b].off \/ blk[b].off + blk[b].n <= blk[a].off
Within == DOMAIN blk = {} \/ Greatest(Ends(0, -1)) - Least({b.off : b \in Live(0, -1)}) <= HeapBytes + Extra(-1)
\* everything given back can be handed out again
AllBack == DOMAIN blk = {} => Fits(0, -1, Units * U)
\* a request is answered in one way or the other: the conditions for a block and for NULL leave no gap
Answered == \A n \in 1..(Units + 1) :
  LET need == RoundUp(Size(n), Unit(-1)) + Slack(-1) IN
  Fits(0, -1, need) => \E off \in {i * 16 : i \in 0..((HeapBytes + Extra(-1)) \div 16)} :
                         Disjoint(0, -1, off, Size(n)) /\ Inside(0, -1, off, Size(n))
\* no block is empty
NoEmpty == \A a \in DOMAIN blk : blk[a].n > 0
==========================================================================
