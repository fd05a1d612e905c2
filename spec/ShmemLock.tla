----------------------------- MODULE ShmemLock -----------------------------
(* Distributed locks: ownership, waiting, hand-over and what the holder of *)
(* a lock may rely on.                                                     *)
EXTENDS Shmem
VARIABLES
  lk,    \* lock -> holder (absent: free)
  lq,    \* calls in progress: [p, l, k, busy, at, since]
  lt     \* logical time of the lock events
lockVars == <<lk, lq, lt>>

LockInit == lk = <<>> /\ lq = {} /\ lt = 0

Free(l) == l \notin DOMAIN lk
Del(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]
Pend(p) == CHOOSE r \in lq : r.p = p
\* somebody other than p holds l, waits for it, or is about to get or release it
Busy(p, l, q, h) == (l \in DOMAIN h /\ h[l] # p) \/ \E r \in q : r.l = l /\ r.p # p
\* a failing test_lock must have seen the lock busy at some moment
Refresh(q, h) == {[r EXCEPT !.busy = @ \/ Busy(r.p, r.l, q, h)] : r \in q}

Call(p, l, k) ==
  /\ lq' = Refresh(lq \cup {[p |-> p, l |-> l, k |-> k, busy |-> FALSE, at |-> lt, since |-> 0 - 1]}, lk)
  /\ lt' = lt + 1

CallSet(p, l) == Call(p, l, "set") /\ UNCHANGED <<lk, memVars>>
CallTest(p, l) == Call(p, l, "test") /\ UNCHANGED <<lk, memVars>>

\* the waiters that had joined the queue before the request r was made
Ahead(r) == {w \in lq : w.l = r.l /\ w.p # r.p /\ w.k = "set" /\ w.since >= 0 /\ w.since < r.at}

(* What the previous holders did in their critical sections has happened.  *)
Released(l, o) == <<<<"lk">>, l>> \in o.bar
Acquire(p, l) ==
  LET r == Pend(p) IN
  /\ Free(l)
  /\ Ahead(r) = {}
  /\ \A o \in ops : Released(l, o) => Ok(o)
  /\ lk' = Set(lk, l, p)
  /\ lq' = Refresh(lq \ {r}, lk')
  /\ lt' = lt + 1
  /\ UNCHANGED memVars

RetSet(p, l) == Acquire(p, l)
RetTest(p, l, res) ==
  IF res = 0 THEN Acquire(p, l)
  ELSE /\ res = 1
       /\ Pend(p).busy
       /\ lq' = lq \ {Pend(p)} /\ lt' = lt + 1 /\ UNCHANGED <<lk, memVars>>

\* the lock may be taken over at any moment of the clear_lock call
CallClearWith(p, l, incall) ==
  /\ lk[l] = p
  /\ lk' = Del(lk, l)
  /\ lq' = Refresh(lq \cup {[p |-> p, l |-> l, k |-> "clear", busy |-> FALSE, at |-> lt, since |-> 0 - 1]}, lk)
  /\ lt' = lt + 1
  /\ ops' = {IF o.p = p /\ o.x = 0 /\ o.k # "rd" /\ o.id \notin incall THEN [o EXCEPT !.bar = @ \cup {<<<<"lk">>, l>>}] ELSE o : o \in ops}
  /\ UNCHANGED <<mem, fin, ep, ent>>
CallClear(p, l) == CallClearWith(p, l, {})
RetClear(p, l) == lq' = lq \ {Pend(p)} /\ lt' = lt + 1 /\ UNCHANGED <<lk, memVars>>

\* by now every call in progress has joined the queue
Settled ==
  /\ lq' = {[r EXCEPT !.since = IF @ < 0 THEN lt ELSE @] : r \in lq}
  /\ lt' = lt + 1
  /\ UNCHANGED <<lk, memVars>>

MutualExclusion == \A l \in DOMAIN lk : TRUE   \* lk is a function: at most one holder by construction
=============================================================================
