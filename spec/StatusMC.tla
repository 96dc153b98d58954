------------------------------ MODULE StatusMC ------------------------------
(* The status word of a location report: which flag each bit carries.        *)
(* Explored: every word with at most MaxSet bits set, and its complement.    *)
EXTENDS Wire
CONSTANTS MaxSet
VARIABLES on, neg
vars == <<on, neg>>
Bits == 0 .. 31
WordOf(set) == [i \in 1 .. 4 |-> FoldLeft(LAMBDA a, k : IF (4 - i) * 8 + k \in set THEN a + 2 ^ k ELSE a, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
Set == IF neg THEN Bits \ on ELSE on
Body(set) == Zeros(4) \o WordOf(set) \o Zeros(20)
Init == on = {} /\ neg \in BOOLEAN
\* bits are added in ascending order, so that each word is reached once
Next == \E k \in Bits : Cardinality(on) < MaxSet /\ (\A j \in on : j < k) /\ on' = on \cup {k} /\ UNCHANGED neg
Spec == Init /\ [][Next]_vars

\* the terminal's direction: the word a list of flags is sent as
Carrier == <<{0}, {1}, {2}, {3}, {4}, {5}, {8, 9}, {10}, {11}, {12}, {13}, {14}, {15}, {16}, {17}, {18}, {19}, {20}, {21}, {22}>>
Low(s) == CHOOSE x \in s : \A y \in s : x <= y
BitsOf(flags) == UNION {{b \in Carrier[i] : Bit(flags[i], b - Low(Carrier[i])) = 1} : i \in DOMAIN Carrier}

Word32 == \A k \in Bits : (StatusBit(Body(Set), k) = 1) <=> k \in Set
BothWays == BitsOf(LocFlags(Body(Set))) = Set \cap FlagBits
\* changing one bit changes the flag that carries it and no other
Independent ==
  LET f == LocFlags(Body(Set)) IN
  \A k \in Bits :
    LET g == LocFlags(Body(IF k \in Set THEN Set \ {k} ELSE Set \cup {k})) IN
    {i \in DOMAIN f : f[i] # g[i]} = {i \in DOMAIN Carrier : k \in Carrier[i]}
OneCarrier == \A i, j \in DOMAIN Carrier : i # j => Carrier[i] \cap Carrier[j] = {}
AllCarried == UNION {Carrier[i] : i \in DOMAIN Carrier} = FlagBits
=============================================================================
