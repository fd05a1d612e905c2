------------------------------- MODULE Shmem -------------------------------
(* The memory model of OpenSHMEM as an abstract machine: symmetric memory, *)
(* outstanding one-sided operations, contexts, fence, quiet, barriers.     *)
(*                                                                         *)
(* An operation is issued by its caller (Issue...), takes effect at its    *)
(* target some time later (Deliver), and is completed for its caller when  *)
(* the call returns (blocking gets, fetching atomics) or by a completing   *)
(* call (quiet, barrier, ...).  Nothing orders the effects of two          *)
(* operations except fences and completions.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

VARIABLES
  mem,   \* <<pe, cell>> -> value, 0 where undefined
  ops,   \* the outstanding element operations (records, see Elem)
  fin,   \* results of completed nonblocking operations not yet looked at
  ep,    \* <<pe, ctx>> -> number of fences so far that were called, and that returned
  ent    \* <<pe, set>> -> number of times the PE entered a barrier/sync on set

memVars == <<mem, ops, fin, ep, ent>>

Get(f, a, d) == IF a \in DOMAIN f THEN f[a] ELSE d
Val(a) == Get(mem, a, 0)
Set(f, a, v) == (a :> v) @@ f

Fetching == {"fetch", "finc", "fadd", "swap", "cswap", "fand", "for", "fxor"}
Updating == {"inc", "add", "set", "and", "or", "xor"}
Reading == {"get", "rd"}

\* the effect of an operation on an element that holds u
Apply(k, a, b, u) ==
  CASE k \in {"put", "set", "swap"} -> a
    [] k \in {"inc", "finc"} -> u + 1
    [] k \in {"add", "fadd"} -> u + a
    [] k \in {"and", "fand"} -> u & a
    [] k \in {"or", "for"} -> u | a
    [] k \in {"xor", "fxor"} -> u ^^ a
    [] k = "cswap" -> IF u = a THEN b ELSE u
    [] OTHER -> u
Eff(o, u) == Apply(o.k, o.a, o.b, u)

MemInit == mem = <<>> /\ ops = {} /\ fin = {} /\ ep = <<>> /\ ent = <<>>

(* One element of an operation: kind, issuer, operation id, element index, *)
(* context, fences that had returned and been called at issue, target, cell, operands, done, value before its *)
(* step, the values the element has held since the issue, nonblocking,     *)
(* barriers and releases which the issuer entered since the issue.         *)
Fences0 == [call |-> 0, ret |-> 0]
Elem(k, p, id, j, x, t, c, a, b, nb) ==
  [k |-> k, p |-> p, id |-> id, j |-> j, x |-> x, e |-> Get(ep, <<p, x>>, Fences0).ret, f |-> Get(ep, <<p, x>>, Fences0).call, t |-> t, c |-> c,
   a |-> a, b |-> b, d |-> FALSE, old |-> 0, vals |-> {Val(<<t, c>>)}, nb |-> nb, bar |-> {}]

\* the operation has taken effect, or may have done so without changing the element
\* ("TRUE =" keeps TLC from splitting a step into one per disjunct)
Ok(o) == TRUE = (o.d \/ \E u \in o.vals : Eff(o, u) = u)

(* An operation that is known to have been delivered and whose result      *)
(* nobody waits for is forgotten.                                          *)
Forget(o) == o.d /\ o.k \notin Fetching

See(o, t, c, v) == IF o.t = t /\ o.c = c THEN [o EXCEPT !.vals = @ \cup {v}] ELSE o
SeeAll(S, t, c, v) == {See(o, t, c, v) : o \in S}

--------------------------------------------------------------------------
(* Issuing *)
IssuePut(p, id, x, t, cells, vals, nb) ==
  /\ ops' = ops \cup {Elem("put", p, id, j, x, t, cells[j], vals[j], 0, nb) : j \in 1..Len(cells)}
  /\ UNCHANGED <<mem, fin, ep, ent>>

IssueGet(p, id, x, t, cells, nb) ==
  /\ ops' = ops \cup {Elem("get", p, id, j, x, t, cells[j], 0, 0, nb) : j \in 1..Len(cells)}
  /\ UNCHANGED <<mem, fin, ep, ent>>

IssueAmo(p, id, x, t, c, k, a, b, nb) ==
  /\ ops' = ops \cup {Elem(k, p, id, 1, x, t, c, a, b, nb)}
  /\ UNCHANGED <<mem, fin, ep, ent>>

\* a local poll (wait_until, test) of thread w is an operation that reads the caller's own memory
IssueReadBy(p, w, c) ==
  /\ ops' = ops \cup {Elem("rd", p, w, 1, 0 - 1, p, c, 0, 0, FALSE)}
  /\ UNCHANGED <<mem, fin, ep, ent>>
IssueRead(p, c) == IssueReadBy(p, 0, c)

(* A fence on a context orders what the PE issues on it to the same target: *)
(* what had been issued (its call returned) when the fence was called       *)
(* before what is issued after the fence returned.                          *)
Ordered(o) == o.k = "put" \/ o.k \in Updating \/ (o.k \in Fetching /\ ~o.nb)
Before(q, o) == q.p = o.p /\ q.x = o.x /\ q.t = o.t /\ q.f < o.e /\ Ordered(q) /\ Ordered(o)
Fences(p, x) == Get(ep, <<p, x>>, Fences0)
\* incall: operations (their ids) whose calls, by other threads, have not returned: the fence does not order them
CallFence(p, x, incall) ==
  /\ ep' = Set(ep, <<p, x>>, [Fences(p, x) EXCEPT !.call = @ + 1])
  /\ ops' = IF incall = {} THEN ops
            ELSE {IF o.p = p /\ o.x = x /\ o.id \in incall THEN [o EXCEPT !.f = Fences(p, x).call + 1] ELSE o : o \in ops}
  /\ UNCHANGED <<mem, fin, ent>>
\* the n-th fence on the context returns
ReturnFence(p, x, n) ==
  /\ ep' = Set(ep, <<p, x>>, [Fences(p, x) EXCEPT !.ret = IF @ < n THEN n ELSE @])
  /\ UNCHANGED <<mem, ops, fin, ent>>
\* both at once
Fence(p, x) ==
  /\ ep' = Set(ep, <<p, x>>, [Fences(p, x) EXCEPT !.call = @ + 1, !.ret = Fences(p, x).call + 1])
  /\ UNCHANGED <<mem, ops, fin, ent>>

(* Effects: the element c of PE t changes from u to v because of exactly   *)
(* one outstanding operation that has not had its effect yet.              *)
Deliver(t, c, u, v) ==
  /\ Val(<<t, c>>) = u
  /\ u # v
  /\ \E o \in ops :
       /\ o.t = t /\ o.c = c /\ ~o.d /\ o.k \notin Reading
       /\ Eff(o, u) = v
       /\ \A q \in ops : Before(q, o) => Ok(q)
       /\ LET o2 == [o EXCEPT !.d = TRUE, !.old = u]
              \* what a fence has ordered before it has had its effect by now, if only without changing anything
              rest == {q \in ops \ {o} : ~Before(q, o)}
          IN ops' = SeeAll(IF Forget(o2) THEN rest ELSE rest \cup {o2}, t, c, v)
  /\ mem' = Set(mem, <<t, c>>, v)
  /\ UNCHANGED <<fin, ep, ent>>

\* the owner stores into its own memory, or a collective or allocation writes it
Overwrite(t, c, v) ==
  /\ mem' = Set(mem, <<t, c>>, v)
  /\ ops' = SeeAll(ops, t, c, v)
  /\ UNCHANGED <<fin, ep, ent>>

--------------------------------------------------------------------------
(* Completion *)
\* the values the caller may receive for a reading or fetching element
Results(o) ==
  IF o.k \in Reading THEN o.vals
  ELSE IF o.d THEN {o.old} ELSE {u \in o.vals : Eff(o, u) = u}

Of(p, id) == {o \in ops : o.p = p /\ o.id = id /\ o.k # "rd"}

ReturnPut(p) == UNCHANGED memVars      \* its effect may still be outstanding

ReturnFetched(p, id, v) ==
  /\ \A o \in Of(p, id) : v[o.j] \in Results(o)
  /\ Cardinality(Of(p, id)) = Len(v)
  /\ ops' = ops \ Of(p, id)
  /\ UNCHANGED <<mem, fin, ep, ent>>

Reads(p, w) == {o \in ops : o.p = p /\ o.k = "rd" /\ o.id = w}
Cmp(k, u, v) == CASE k = "eq" -> u = v [] k = "ne" -> u # v [] k = "gt" -> u > v
                  [] k = "ge" -> u >= v [] k = "lt" -> u < v [] OTHER -> u <= v
ReturnReadBy(p, w, k, a, r) ==
  /\ \A o \in Reads(p, w) : TRUE = \E u \in o.vals : Cmp(k, u, a) = r
  /\ ops' = ops \ Reads(p, w)
  /\ UNCHANGED <<mem, fin, ep, ent>>
ReturnRead(p, k, a, r) == ReturnReadBy(p, 0, k, a, r)

\* completing the set S of operations: all of them have had their effect
Results1(o) == [p |-> o.p, id |-> o.id, j |-> o.j, vals |-> Results(o)]
CompleteOps(S) ==
  /\ \A o \in S : Ok(o)
  /\ ops' = ops \ S
  /\ fin' = fin \cup {Results1(o) : o \in {q \in S : q.nb /\ q.k # "put"}}

Mine(p, x) == {o \in ops : o.p = p /\ o.x = x /\ o.k # "rd"}
Quiet(p, x) == CompleteOps(Mine(p, x)) /\ UNCHANGED <<mem, ep, ent>>
\* with several threads, a quiet completes the operations (their ids) whose calls had returned when it was called
QuietOf(p, x, ids) == CompleteOps({o \in Mine(p, x) : o.id \in ids}) /\ UNCHANGED <<mem, ep, ent>>

ReportNbi(p, id, v) ==
  LET S == {f \in fin : f.p = p /\ f.id = id} IN
  /\ Cardinality(S) = Len(v)
  /\ \A f \in S : v[f.j] \in f.vals
  /\ fin' = fin \ S
  /\ UNCHANGED <<mem, ops, ep, ent>>

--------------------------------------------------------------------------
(* Barriers and syncs on a set of PEs.  compl: contexts whose operations   *)
(* the call completes (barriers: the default context 0).                   *)
\* incall: operations whose calls, by other threads of the PE, have not returned
EnterWith(p, key, compl, incall) ==
  LET n == Get(ent, <<p, key>>, 0) + 1 IN
  /\ ent' = Set(ent, <<p, key>>, n)
  /\ ops' = {IF o.p = p /\ o.x \in compl /\ o.id \notin incall THEN [o EXCEPT !.bar = @ \cup {<<key, n>>}] ELSE o : o \in ops}
  /\ UNCHANGED <<mem, fin, ep>>

Enter(p, key, compl) == EnterWith(p, key, compl, {})

Leave(p, key, members) ==
  LET n == Get(ent, <<p, key>>, 0)
      S == {o \in ops : <<key, n>> \in o.bar}
  IN /\ \A q \in members : Get(ent, <<q, key>>, 0) >= n
     /\ \A o \in S : Ok(o)
     /\ LET done == {o \in S : o.p = p \/ ~o.nb \/ o.k = "put"} IN
          /\ ops' = ops \ done
          /\ fin' = fin \cup {Results1(o) : o \in {q \in done : q.nb /\ q.k # "put"}}
     /\ UNCHANGED <<mem, ep, ent>>
=============================================================================
