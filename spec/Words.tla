------------------------------- MODULE Words -------------------------------
(* Machine words as sequences of bytes, least significant byte first, and  *)
(* the atomic operations and comparisons on them.                          *)
EXTENDS Integers, Sequences, Bitwise

Word(n) == [1..n -> 0..255]
Zero(n) == [i \in 1..n |-> 0]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Bits(w) == [i \in 1..Len(w) |-> w[i]]

\* carry into byte i of a + b
RECURSIVE Carry(_, _, _)
Carry(a, b, i) == IF i = 1 THEN 0 ELSE (a[i - 1] + b[i - 1] + Carry(a, b, i - 1)) \div 256
Plus(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i] + Carry(a, b, i)) % 256]
BitAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
BitOr(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
BitXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

\* a (and b for cswap) applied to u
WApply(k, a, b, u) ==
  CASE k \in {"set", "swap"} -> a
    [] k \in {"inc", "finc"} -> Plus(u, One(Len(u)))
    [] k \in {"add", "fadd"} -> Plus(u, a)
    [] k \in {"and", "fand"} -> BitAnd(u, a)
    [] k \in {"or", "for"} -> BitOr(u, a)
    [] k \in {"xor", "fxor"} -> BitXor(u, a)
    [] k = "cswap" -> IF u = a THEN b ELSE u
    [] OTHER -> u

\* order of integers: signed ones have the top bit inverted
Key(s, w) == IF s THEN [w EXCEPT ![Len(w)] = (@ + 128) % 256] ELSE w
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] = b[i] THEN Less(a, b, i - 1) ELSE a[i] < b[i]
Lt(s, a, b) == Less(Key(s, a), Key(s, b), Len(a))
\* schoolbook multiplication, modulo 256^n
RECURSIVE Col(_, _, _, _), Cols(_, _, _, _)
Col(a, b, i, j) == IF j > i THEN 0 ELSE a[j] * b[i + 1 - j] + Col(a, b, i, j + 1)
Cols(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET x == Col(a, b, i, 1) + c IN <<x % 256>> \o Cols(a, b, i + 1, x \div 256)
Times(a, b) == Cols(a, b, 1, 0)
Signed(t) == t \in {"char", "schar", "short", "int", "long", "longlong", "int8", "int16", "int32", "int64", "ptrdiff"}
WCmp(t, k, a, b) ==
  CASE k = "eq" -> a = b
    [] k = "ne" -> a # b
    [] k = "lt" -> Lt(Signed(t), a, b)
    [] k = "gt" -> Lt(Signed(t), b, a)
    [] k = "le" -> ~Lt(Signed(t), b, a)
    [] OTHER -> ~Lt(Signed(t), a, b)

\* order of floating-point numbers (no NaN): sign and magnitude
FKey(w) == IF w[Len(w)] >= 128 THEN [i \in 1..Len(w) |-> 255 - w[i]] ELSE [w EXCEPT ![Len(w)] = @ + 128]
TLt(t, a, b) == IF t \in {"float", "double"} THEN Less(FKey(a), FKey(b), Len(a)) ELSE Lt(Signed(t), a, b)
\* reductions
RApply(k, t, a, b) ==
  CASE k = "sum" -> Plus(a, b)
    [] k = "prod" -> Times(a, b)
    [] k = "and" -> BitAnd(a, b)
    [] k = "or" -> BitOr(a, b)
    [] k = "xor" -> BitXor(a, b)
    [] k = "min" -> IF TLt(t, b, a) THEN b ELSE a
    [] OTHER -> IF TLt(t, a, b) THEN b ELSE a
=============================================================================
