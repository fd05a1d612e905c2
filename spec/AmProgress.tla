----------------------------- MODULE AmProgress -----------------------------
(* The active message layer as the library implements it (am_impl.h,       *)
(* rma_am_impl.h, amo_am_impl.h, am_progress_impl.h): packets to a PE are  *)
(* taken by one receive from any source, which is served only while that   *)
(* PE is inside a call of the library; a put is a packet and a second      *)
(* message with the data, for which the handler blocks; a fetch is         *)
(* answered on a channel of its own; a flush asks every flagged PE for an  *)
(* answer.  All programs of Ops operations per PE, all interleavings: what *)
(* a flush promises holds (the done set of Shmem.tla), nothing deadlocks,  *)
(* every call returns, and nothing is left when the last receive is taken  *)
(* down.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pes, Ops, Kinds
VARIABLES pc,     \* where each PE is
          goal,   \* what it is waiting for: target PE or set of PEs
          pkt,    \* pkt[q][p]: packets from p to q, taken in order
          data,   \* data[q][p]: the second messages of puts
          hand,   \* the packet a PE's handler is busy with (<<>>: none)
          ack,    \* ack[p]: the PEs whose answer p has not consumed
          flag,   \* flag[p][q]: p has sent something unanswered to q
          n,      \* how many operations each PE has issued
          sent, applied, done
vars == <<pc, goal, pkt, data, hand, ack, flag, n, sent, applied, done>>

Init == /\ pc = [p \in Pes |-> "user"] /\ goal = [p \in Pes |-> {}]
        /\ pkt = [q \in Pes |-> [p \in Pes |-> <<>>]] /\ data = [q \in Pes |-> [p \in Pes |-> <<>>]]
        /\ hand = [p \in Pes |-> <<>>] /\ ack = [p \in Pes |-> {}]
        /\ flag = [p \in Pes |-> [q \in Pes |-> FALSE]]
        /\ n = [p \in Pes |-> 0] /\ sent = [p \in Pes |-> [q \in Pes |-> <<>>]]
        /\ applied = [q \in Pes |-> [p \in Pes |-> <<>>]] /\ done = [p \in Pes |-> [q \in Pes |-> 0]]

Send(p, q, k) == pkt' = [pkt EXCEPT ![q][p] = Append(@, <<k, n[p] + 1>>)]

\* issue an operation: the call is in the library from here on
Issue(p) == /\ pc[p] = "user" /\ n[p] < Ops
            /\ \E q \in Pes, k \in Kinds :
                  /\ Send(p, q, k) /\ goal' = [goal EXCEPT ![p] = {q}]
                  /\ n' = [n EXCEPT ![p] = @ + 1]
                  /\ sent' = IF k = "fetch" THEN sent ELSE [sent EXCEPT ![p][q] = Append(@, n[p] + 1)]
                  /\ IF k = "put" THEN data' = [data EXCEPT ![q][p] = Append(@, n[p] + 1)] ELSE UNCHANGED data
                  /\ pc' = [pc EXCEPT ![p] = k]
            /\ UNCHANGED <<hand, ack, flag, applied, done>>
\* a small packet may leave at once or only when it is taken
Posted(p) == /\ pc[p] = "post" /\ hand[p] = <<>>
             /\ pc' = [pc EXCEPT ![p] = "user"]
             /\ flag' = [flag EXCEPT ![p] = [q \in Pes |-> @[q] \/ q \in goal[p]]]
             /\ UNCHANGED <<goal, pkt, data, hand, ack, n, sent, applied, done>>
\* the data of a put may be sent only when the target takes it
PutDone(p) == /\ pc[p] = "put" /\ hand[p] = <<>>
              /\ \A q \in goal[p] : data[q][p] = <<>>
              /\ pc' = [pc EXCEPT ![p] = "user"]
              /\ flag' = [flag EXCEPT ![p] = [q \in Pes |-> @[q] \/ q \in goal[p]]]
              /\ UNCHANGED <<goal, pkt, data, hand, ack, n, sent, applied, done>>
\* answered: everything sent to that PE before is there
Answered(p) == /\ pc[p] = "fetch" /\ hand[p] = <<>> /\ goal[p] \subseteq ack[p]
               /\ pc' = [pc EXCEPT ![p] = "user"] /\ ack' = [ack EXCEPT ![p] = @ \ goal[p]]
               /\ flag' = [flag EXCEPT ![p] = [q \in Pes |-> @[q] /\ q \notin goal[p]]]
               /\ done' = [done EXCEPT ![p] = [q \in Pes |-> IF q \in goal[p] THEN Len(sent[p][q]) ELSE @[q]]]
               /\ UNCHANGED <<goal, pkt, data, hand, n, sent, applied>>
\* flush (shmem_quiet, shmem_fence, barriers, finalize)
Flush(p) == /\ pc[p] = "user"
            /\ LET to == {q \in Pes : flag[p][q]} IN
                  /\ to # {} \/ n[p] = Ops
                  /\ goal' = [goal EXCEPT ![p] = to]
                  /\ pkt' = [q \in Pes |-> IF q \in to THEN [pkt[q] EXCEPT ![p] = Append(@, <<"flush", 0>>)] ELSE pkt[q]]
            /\ pc' = [pc EXCEPT ![p] = "flush"]
            /\ UNCHANGED <<data, hand, ack, flag, n, sent, applied, done>>
Flushed(p) == /\ pc[p] = "flush" /\ hand[p] = <<>> /\ goal[p] \subseteq ack[p]
              /\ ack' = [ack EXCEPT ![p] = @ \ goal[p]]
              /\ flag' = [flag EXCEPT ![p] = [q \in Pes |-> FALSE]]
              /\ done' = [done EXCEPT ![p] = [q \in Pes |-> Len(sent[p][q])]]
              /\ pc' = [pc EXCEPT ![p] = IF n[p] = Ops THEN "barrier" ELSE "user"]
              /\ UNCHANGED <<goal, pkt, data, hand, n, sent, applied>>
\* the barrier of finalize, then the packet to oneself that ends the service
Leave(p) == /\ pc[p] = "barrier" /\ hand[p] = <<>>
            /\ \A q \in Pes : pc[q] \in {"barrier", "end", "gone"}
            /\ pc' = [pc EXCEPT ![p] = "end"]
            /\ pkt' = [pkt EXCEPT ![p][p] = Append(@, <<"term", 0>>)]
            /\ UNCHANGED <<goal, data, hand, ack, flag, n, sent, applied, done>>
End(p) == /\ pc[p] = "end"
          /\ \E o \in Pes : /\ pkt[p][o] # <<>>
                            /\ pkt' = [pkt EXCEPT ![p][o] = Tail(@)]
          /\ pc' = [pc EXCEPT ![p] = "gone"]
          /\ UNCHANGED <<goal, data, hand, ack, flag, n, sent, applied, done>>

\* the service: a PE that waits in a call takes one packet and handles it
InCall(p) == pc[p] \in {"post", "put", "fetch", "flush", "barrier"}
Take(p) == /\ InCall(p) /\ hand[p] = <<>>
           /\ \E o \in Pes : /\ pkt[p][o] # <<>>
                             /\ pkt' = [pkt EXCEPT ![p][o] = Tail(@)]
                             /\ hand' = [hand EXCEPT ![p] = <<o>> \o Head(pkt[p][o])]
           /\ UNCHANGED <<pc, goal, data, ack, flag, n, sent, applied, done>>
Handle(p) ==
  /\ hand[p] # <<>>
  /\ LET o == hand[p][1]
         k == hand[p][2]
     IN /\ k = "put" => data[p][o] # <<>>
        /\ data' = IF k = "put" THEN [data EXCEPT ![p][o] = Tail(@)] ELSE data
        /\ applied' = IF k \in {"put", "post"} THEN [applied EXCEPT ![p][o] = Append(@, hand[p][3])] ELSE applied
        /\ ack' = IF k \in {"fetch", "flush"} THEN [ack EXCEPT ![o] = @ \cup {p}] ELSE ack
  /\ hand' = [hand EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<pc, goal, pkt, flag, n, sent, done>>

Lib(p) == Posted(p) \/ PutDone(p) \/ Answered(p) \/ Flushed(p) \/ Leave(p) \/ End(p)
Finished == (\A p \in Pes : pc[p] = "gone") /\ UNCHANGED vars
Next == (\E p \in Pes : Issue(p) \/ Flush(p) \/ Lib(p) \/ Take(p) \/ Handle(p)) \/ Finished
\* the calls that can return do, the service runs while a PE waits, programs go on
Fair == \A p \in Pes : WF_vars(Lib(p)) /\ WF_vars(Take(p)) /\ WF_vars(Handle(p)) /\ WF_vars(Issue(p) \/ Flush(p))
Spec == Init /\ [][Next]_vars /\ Fair

Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
\* operations of one PE take effect in the order in which it issued them
InOrder == \A p \in Pes, q \in Pes : Prefix(applied[q][p], sent[p][q])
\* what a flush (or an answer) has promised is there
Complete == \A p \in Pes, q \in Pes : Len(applied[q][p]) >= done[p][q]
\* a target that is not flagged has nothing outstanding
FlagSound == \A p \in Pes, q \in Pes : (pc[p] \notin {"post", "put"} /\ ~flag[p][q]) => Len(applied[q][p]) = Len(sent[p][q])
\* an answer is for the call that waits for it
AckSound == \A p \in Pes : ack[p] # {} => pc[p] \in {"fetch", "flush"} /\ ack[p] \subseteq goal[p]
\* the packet that ends the service is the last one
Clean == \A p \in Pes : pc[p] \in {"end", "gone"} => (\A o \in Pes : data[p][o] = <<>> /\ (\A i \in 1..Len(pkt[p][o]) : pkt[p][o][i][1] = "term"))
\* every call returns
Returns == \A p \in Pes : <>(pc[p] = "gone")
=============================================================================
