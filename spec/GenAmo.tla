------------------------------ MODULE GenAmo ------------------------------
(* Clients of the atomics: every PE issues a sequence of atomic operations *)
(* on the same word, blocking or nonblocking, and completes them.  Every   *)
(* combination of operations within the bounds, every interleaving and     *)
(* every order of delivery.                                                *)
EXTENDS Shmem, Json
CONSTANTS NPes, MaxOps, Kinds, Nbs, Emitting
VARIABLES prog, pc, at, got
gvars == <<memVars, prog, pc, at, got>>
Pes == 0..(NPes - 1)
Progs == UNION {[1..n -> {k \in Kinds \X Nbs : k[2] => k[1] \in Fetching}] : n \in 1..MaxOps}
Init == /\ MemInit
        /\ prog \in [Pes -> Progs]
        /\ pc = [p \in Pes |-> 0] /\ at = [p \in Pes |-> 1]
        /\ got = <<>>          \* <<pe, op>> -> fetched value
More(p) == at[p] <= Len(prog[p])
K(p) == prog[p][at[p]][1]
Nb(p) == prog[p][at[p]][2]
Tag(p, i) == 10 * (p + 1) + i
A(k, p, i) == CASE k \in {"add", "fadd"} -> p + 1 [] k \in {"and", "fand"} -> 14 - p [] k \in {"or", "for", "xor", "fxor"} -> 2^(p + 1)
                [] k = "cswap" -> 0 [] OTHER -> Tag(p, i)
B(k, p, i) == Tag(p, i)
Advance(p) == pc' = [pc EXCEPT ![p] = 0] /\ at' = [at EXCEPT ![p] = @ + 1]
Step(p) ==
  /\ UNCHANGED prog
  /\ CASE More(p) /\ pc[p] = 0 -> IssueAmo(p, at[p], 0, 0, 0, K(p), A(K(p), p, at[p]), B(K(p), p, at[p]), Nb(p))
                          /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED <<at, got>>
       [] More(p) /\ pc[p] = 1 ->
            /\ Advance(p)
            /\ IF K(p) \in Fetching /\ ~Nb(p)
               THEN \E v \in UNION {Results(o) : o \in Of(p, at[p])} :
                      ReturnFetched(p, at[p], <<v>>) /\ got' = Set(got, <<p, at[p]>>, v)
               ELSE ReturnPut(p) /\ UNCHANGED got
       [] ~More(p) /\ pc[p] = 0 -> Quiet(p, 0) /\ pc' = [pc EXCEPT ![p] = 2] /\ UNCHANGED <<at, got>>
       [] ~More(p) /\ pc[p] = 2 ->
            /\ UNCHANGED <<at, mem, ops, ep, ent>>
            /\ IF \E f \in fin : f.p = p
               THEN LET f == CHOOSE g \in fin : g.p = p IN
                    \E v \in f.vals : got' = Set(got, <<p, f.id>>, v) /\ ReportNbi(p, f.id, <<v>>) /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![p] = 3] /\ UNCHANGED <<fin, got>>
       [] OTHER -> FALSE
Network == /\ \E o \in ops : Deliver(0, 0, Val(<<0, 0>>), Eff(o, Val(<<0, 0>>)))
           /\ UNCHANGED <<prog, pc, at, got>>
Over == \A p \in Pes : pc[p] = 3
Next == (\E p \in Pes : Step(p)) \/ Network \/ (Over /\ UNCHANGED gvars)
Spec == Init /\ [][Next]_gvars
Emit == IF Emitting /\ (\A p \in Pes : pc[p] = 0 /\ at[p] = 1) THEN PrintT(<<"PLAN", ToJson([p |-> [i \in 1..NPes |-> prog[i - 1]]])>>) ELSE TRUE
--------------------------------------------------------------------------
AllOps == {<<p, i>> : p \in Pes, i \in 1..MaxOps} 
Ops == {x \in AllOps : x[2] <= Len(prog[x[1]])}
KOf(x) == prog[x[1]][x[2]][1]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN
          (IF KOf(x) \in {"inc", "finc"} THEN 1 ELSE x[1] + 1) + Sum(S \ {x})
Adding == {"inc", "finc", "add", "fadd"}
\* nothing is lost, nothing is applied twice
Counted == Over /\ (\A x \in Ops : KOf(x) \in Adding) =>
  /\ Val(<<0, 0>>) = Sum(Ops)
  /\ \A x, y \in DOMAIN got : x # y => got[x] # got[y]
\* exchanges hand every value on to exactly one other operation
Chained == Over /\ (\A x \in Ops : KOf(x) = "swap") =>
  {got[x] : x \in Ops} \cup {Val(<<0, 0>>)} = {0} \cup {Tag(x[1], x[2]) : x \in Ops}
\* one compare-and-swap wins
OneWinner == Over /\ (\A x \in Ops : KOf(x) = "cswap") => Cardinality({x \in Ops : got[x] = 0}) = 1
\* in general: some order of the operations, which keeps the order of each PE's blocking ones, gives these results
RECURSIVE Lin(_, _)
Lin(S, u) == IF S = {} THEN u = Val(<<0, 0>>)
  ELSE \E x \in S :
    /\ x \in DOMAIN got => got[x] = u
    /\ \A y \in S : y[1] = x[1] /\ y[2] < x[2] /\ ~prog[y[1]][y[2]][2] => KOf(y) \notin Fetching
    /\ Lin(S \ {x}, Apply(KOf(x), A(KOf(x), x[1], x[2]), B(KOf(x), x[1], x[2]), u))
Linearizable == Over => Lin(Ops, 0)
Reported == Over => \A x \in Ops : KOf(x) \in Fetching => x \in DOMAIN got
==========================================================================
