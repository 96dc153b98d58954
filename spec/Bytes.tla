------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255, and finite-map helpers.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in (DOMAIN f) \ {k} |-> f[x]]
EmptyMap     == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

Word(s, i)   == s[i] * 256 + s[i + 1]
WordB(n)     == <<n \div 256, n % 256>>
Bit(n, k)    == (n \div (2 ^ k)) % 2
From(s, i)   == IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, Len(s))
XorAll(s)    == FoldLeft(LAMBDA a, b : a ^^ b, 0, s)
Nibbles(s)   == [i \in 1 .. 2 * Len(s) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16]
Zeros(n)     == [i \in 1 .. n |-> 0]

\* s without its trailing zero bytes
TrimZeros(s) ==
  LET nz == {i \in DOMAIN s : s[i] # 0}
  IN  IF nz = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE i \in nz : \A j \in nz : j <= i)

\* n after its last 15 (the F digits a phone number may be padded with)
StripF(n) ==
  LET fs == {i \in DOMAIN n : n[i] = 15}
  IN  IF fs = {} THEN n ELSE From(n, (CHOOSE i \in fs : \A j \in fs : j <= i) + 1)
=============================================================================
