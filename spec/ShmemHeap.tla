----------------------------- MODULE ShmemHeap -----------------------------
(* The symmetric heap and the pools of memory spaces: which blocks an      *)
(* allocation may return, and when it may fail.                            *)
EXTENDS ShmemTeam
CONSTANTS PageSize
VARIABLES
  blk,   \* <<pe, slot>> -> [x, off, n]: the live blocks
  ares,  \* <<pool, instance>> -> the result on the PEs that have returned
  acnt,  \* <<pe, pool>> -> number of allocations so far
  pool   \* pool -> [size, nctx]; pool -1 is the symmetric heap
heapVars == <<blk, ares, acnt, pool>>
HeapInit(size) == blk = <<>> /\ ares = <<>> /\ acnt = <<>> /\ pool = (-1 :> [size |-> size, nctx |-> 0])

Unit(x) == IF x < 0 THEN 16 ELSE PageSize
RoundUp(n, u) == ((n + u - 1) \div u) * u
Slack(x) == IF x < 0 THEN 128 ELSE 0
\* memory that a pool may use beyond the size asked for
Extra(x) == IF x < 0 THEN 65536 ELSE 0
\* bookkeeping of the allocator that is not available to the user
Reserve(x) == IF x < 0 THEN 8192 ELSE 0

Live(p, x) == {blk[a] : a \in {b \in DOMAIN blk : b[1] = p /\ blk[b].x = x}}
Ends(p, x) == {b.off + b.n : b \in Live(p, x)}
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
Greatest(S) == CHOOSE v \in S : \A w \in S : v >= w
\* free room behind block b up to the next block
RoomAfter(p, x, b) ==
  LET nxt == {c.off : c \in {d \in Live(p, x) : d.off >= b.off + b.n}} \ {b.off}
  IN IF nxt = {} THEN 0 ELSE Least(nxt) - (b.off + RoundUp(b.n, Unit(x)))
(* Somewhere there is certainly room for need bytes.  The place of the     *)
(* blocks relative to the ends of the pool is not visible, but outside of  *)
(* the blocks' span at least half of the rest is contiguous.               *)
Fits(p, x, need) ==
  LET L == Live(p, x)
      size == pool[x].size - Reserve(x)
  IN need <= size /\
     IF L = {} THEN TRUE
     ELSE \/ \E b \in L : RoomAfter(p, x, b) >= need
          \/ 2 * need <= size - (Greatest(Ends(p, x)) - Least({b.off : b \in L}))

Disjoint(p, x, off, n) == TRUE = \A b \in Live(p, x) : off + n <= b.off \/ b.off + b.n <= off
Inside(p, x, off, n) ==
  LET lo == Least({off} \cup {b.off : b \in Live(p, x)})
      hi == Greatest({off + n} \cup Ends(p, x))
  IN hi - lo <= RoundUp(pool[x].size, PageSize) + Extra(x)

Bytes(k, n, a) == IF k = "calloc" THEN n * a ELSE n
Align(k, a) == IF k = "align" THEN a ELSE 8

\* all PEs get the same answer
SameAnswer(p, x, ans) ==
  LET i == <<x, Get(acnt, <<p, x>>, 0) + 1>> IN
  /\ i \in DOMAIN ares => ares[i] = ans
  /\ ares' = Set(ares, i, ans)
  /\ acnt' = Set(acnt, <<p, x>>, i[2])

Fresh(p, x, off, low, n, al) ==
  /\ Disjoint(p, x, off, n)
  /\ Inside(p, x, off, n)
  /\ low % al = 0

\* v = <<1, offset, low bits of the address>> or <<0, ...>> for NULL
Alloc(p, s, k, n, a, x, v) ==
  LET total == Bytes(k, n, a)
      al == Align(k, a)
      rest == [b \in DOMAIN blk \ {<<p, s>>} |-> blk[b]]
  IN /\ SameAnswer(p, x, <<v[1], v[2]>>)
     /\ IF v[1] = 1
        THEN /\ total > 0
             /\ Fresh(p, x, v[2], v[3], total, al)
             /\ blk' = Set(rest, <<p, s>>, [x |-> x, off |-> v[2], n |-> total])
        ELSE /\ v[1] = 0
             /\ total > 0 => ~Fits(p, x, RoundUp(total, Unit(x)) + (IF al > Unit(x) THEN al ELSE 0) + Slack(x))
             /\ blk' = rest
     /\ UNCHANGED pool

FreeBlk(p, s) == blk' = [b \in DOMAIN blk \ {<<p, s>>} |-> blk[b]] /\ UNCHANGED <<ares, acnt, pool>>

Realloc(p, s, n, v) ==
  LET have == <<p, s>> \in DOMAIN blk
      rest == [b \in DOMAIN blk \ {<<p, s>>} |-> blk[b]]
      others == {rest[b] : b \in {c \in DOMAIN rest : c[1] = p /\ rest[c].x = -1}}
  IN /\ SameAnswer(p, -1, <<v[1], v[2]>>)
     /\ IF v[1] = 1
        THEN /\ n > 0
             /\ TRUE = \A b \in others : v[2] + n <= b.off \/ b.off + b.n <= v[2]
             /\ LET lo == Least({v[2]} \cup {b.off : b \in others})
                    hi == Greatest({v[2] + n} \cup {b.off + b.n : b \in others})
                IN hi - lo <= RoundUp(pool[-1].size, PageSize) + Extra(-1)
             /\ v[3] % 8 = 0
             /\ blk' = Set(rest, <<p, s>>, [x |-> -1, off |-> v[2], n |-> n])
        ELSE /\ v[1] = 0
             /\ n > 0 => ~Fits(p, -1, RoundUp(n, 16) + Slack(-1))
             /\ blk' = IF n = 0 THEN rest ELSE blk
     /\ UNCHANGED pool
=============================================================================
