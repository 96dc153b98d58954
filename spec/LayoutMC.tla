------------------------------ MODULE LayoutMC ------------------------------
(* The layouts of registrations and authentications: what a terminal writes  *)
(* (from the tables of the protocol) is what Parse and RegFields or         *)
(* AuthFields read, for every combination of versions, field lengths and      *)
(* contents, also when sent in fragments cut anywhere.                        *)
EXTENDS Platform, TLC
CONSTANTS Alphabet, MaxId, MaxPlate
VARIABLES m
vars == <<m>>
Strs(n) == UNION {[1 .. k -> Alphabet] : k \in 0 .. n}
Pad(s, n) == s \o Zeros(n - Len(s))
Hdr(id, v19, frag, len, phone, ser) ==
  WordB(id) \o WordB(len + (IF v19 THEN 16384 ELSE 0) + (IF frag # <<>> THEN 8192 ELSE 0))
  \o (IF v19 THEN <<1>> ELSE <<>>) \o Pad(<<>>, (IF v19 THEN 10 ELSE 6) - Len(phone)) \o phone \o WordB(ser)
  \o (IF frag # <<>> THEN WordB(frag[1]) \o WordB(frag[2]) ELSE <<>>)
Reg11(d, l) == Zeros(4) \o Pad(<<65>>, 5) \o Pad(<<66>>, 8) \o Pad(d, 7) \o <<1>> \o l
Reg13(d, l) == Zeros(4) \o Pad(<<65>>, 5) \o Pad(<<66>>, 20) \o Pad(d, 7) \o <<1>> \o l
Reg19(d, l) == Zeros(4) \o Pad(<<65>>, 11) \o Pad(<<66>>, 30) \o Pad(d, 30) \o <<1>> \o l
RegOf(ver, d, l) == CASE ver = "2011" -> Reg11(d, l) [] ver = "2013" -> Reg13(d, l) [] ver = "2019" -> Reg19(d, l)
Auth19(c, i, s) == <<Len(c)>> \o c \o i \o Pad(s, 20)
Bcd == <<1, 53>>      \* 0135
Sent(id, v19, body) == Wrap(Hdr(id, v19, <<>>, Len(body), Bcd, 7) \o body)
\* in two fragments, the first ending after k bytes
Sent2(id, v19, body, k) == Wrap(Hdr(id, v19, <<2, 1>>, k, Bcd, 7) \o SubSeq(body, 1, k))
                           \o Wrap(Hdr(id, v19, <<2, 2>>, Len(body) - k, Bcd, 8) \o From(body, k + 1))
\* identities end in a byte other than zero (zeros are padding)
Ids == {d \in Strs(MaxId) : d = <<>> \/ d[Len(d)] # 0}
Nul == [kind |-> "none", ver |-> "2013", a |-> <<>>, b |-> <<>>, c |-> <<>>]
Init == m = Nul
Next == \/ \E ver \in {"2011", "2013", "2019"}, d \in Ids, l \in Strs(MaxPlate) \ {<<>>} : m' = [Nul EXCEPT !.kind = "reg", !.ver = ver, !.a = d, !.b = l]
        \/ \E v \in {"2013", "2019"}, c \in Strs(MaxPlate), s \in Ids : m' = [Nul EXCEPT !.kind = "auth", !.ver = v, !.a = c, !.b = s, !.c = [i \in 1 .. 15 |-> IF i = 2 THEN 126 ELSE 40 + i]]
Spec == Init /\ [][m = Nul /\ Next]_vars
V19 == m.ver = "2019"
BodyOf == IF m.kind = "reg" THEN RegOf(m.ver, m.a, m.b) ELSE IF V19 THEN Auth19(m.a, m.c, m.b) ELSE m.a
IdOf == IF m.kind = "reg" THEN Reg ELSE Auth
Reads(x) == IF m.kind = "reg" THEN RegFields(x) = [ver |-> m.ver, did |-> m.a, plate |-> m.b]
            ELSE AuthFields(x) = IF V19 THEN [code |-> m.a, imei |-> m.c, sw |-> m.b] ELSE [code |-> m.a, imei |-> <<>>, sw |-> <<>>]
Whole == m.kind # "none" =>
  LET p == ParseAll(Sent(IdOf, V19, BodyOf)) IN
  /\ Len(p) = 1
  /\ p[1].cls = "msg" /\ p[1].id = IdOf /\ p[1].ser = 7 /\ p[1].v19 = V19 /\ p[1].body = BodyOf /\ Sound(p[1])
  /\ p[1].nibs = Zeros(IF V19 THEN 16 ELSE 8) \o <<0, 1, 3, 5>>
  /\ Reads(p[1])
Fragmented == m.kind # "none" =>
  \A k \in {0, 1, Len(BodyOf) \div 2, Len(BodyOf)} : k <= Len(BodyOf) =>
    LET p == ParseAll(Sent2(IdOf, V19, BodyOf, k))
        a == Assemble(EmptyMap, p[1])
        z == Assemble(a.seg, p[2])
        w == [p[2] EXCEPT !.body = z.body, !.len = Len(z.body), !.frag = FALSE]
    IN  Len(p) = 2 /\ ~a.done /\ z.done /\ z.seg = EmptyMap /\ z.body = BodyOf /\ Sound(w) /\ Reads(w)
=============================================================================
