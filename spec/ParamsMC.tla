------------------------------ MODULE ParamsMC ------------------------------
(* Parameter-setting lists: every list up to MaxItems over a pool of items   *)
(* (of each kind, at the edges of what can be represented, unknown ids).     *)
EXTENDS Params, TLC
CONSTANTS MaxItems
VARIABLES list
vars == <<list>>
Num(b) == [t |-> "num", b |-> Zeros(8 - Len(b)) \o b, int |-> TRUE]
Frac == [t |-> "num", b |-> Zeros(8), int |-> FALSE]
Rep(n, x) == [i \in 1 .. n |-> x]
Str(u, gok, g, hok, h) == [t |-> "str", utf8 |-> u, gbkOk |-> gok, gbk |-> g, hexOk |-> hok, hex |-> h]
Id(n) == <<0, 0>> \o WordB(n)
It(n, v) == [id |-> Id(n), v |-> v]
Pool == {It(1, Num(<<255, 255, 255, 255>>)), It(1, Num(<<1, 0, 0, 0, 0>>)), It(49, Num(<<126, 125>>)), It(49, Num(<<1, 0, 0>>)), It(132, Num(<<255>>)),
         It(132, Num(<<1, 0>>)), It(132, Frac), It(16, Str(<<65>>, TRUE, <<65>>, FALSE, <<>>)), It(16, Str(Rep(300, 65), TRUE, Rep(255, 65), FALSE, <<>>)),
         It(16, Str(Rep(300, 65), TRUE, Rep(256, 65), FALSE, <<>>)), It(16, Str(<<240>>, FALSE, <<>>, FALSE, <<>>)), It(16, Str(<<>>, TRUE, <<>>, TRUE, <<>>)),
         It(272, Str(Rep(255, 66), TRUE, <<>>, FALSE, <<>>)), It(272, Str(Rep(256, 66), TRUE, <<>>, FALSE, <<>>)),
         It(50, Str(<<48, 55>>, TRUE, <<48, 55>>, TRUE, <<7>>)), It(50, Str(<<48>>, TRUE, <<48>>, FALSE, <<>>)), It(8, Num(<<1>>)), It(8, Str(<<1>>, TRUE, <<1>>, FALSE, <<>>)),
         [id |-> <<128, 0, 0, 1>>, v |-> Num(<<1>>)]}
Init == list = <<>>
Next == Len(list) < MaxItems /\ \E it \in Pool : list' = Append(list, it)
Spec == Init /\ [][Next]_vars
Ok(it) == Encoding(Kind(it.id), it.v) # <<>>
\* the command divides into exactly the items expected, and says how many there are
Readable == LET b == SetBody(list) IN b[1] = Len(ExpectedItems(list)) /\ Items(From(b, 2)) = ExpectedItems(list)
\* in order: what is left out does not affect the others
Subsequence == LET ok == SelectSeq(list, Ok) IN
               /\ ExpectedItems(list) = ExpectedItems(ok) /\ Len(ExpectedItems(ok)) = Len(ok)
               /\ \A k \in DOMAIN ok : ExpectedItems(ok)[k] = [id |-> ok[k].id, val |-> Encoding(Kind(ok[k].id), ok[k].v)[1]]
Width == \A k \in DOMAIN ExpectedItems(list) : LET e == ExpectedItems(list)[k] IN
           CASE Kind(e.id) = "dword" -> Len(e.val) = 4 [] Kind(e.id) = "word" -> Len(e.val) = 2 [] Kind(e.id) = "byte" -> Len(e.val) = 1
             [] Kind(e.id) \in {"gbk", "text", "hex"} -> Len(e.val) <= 255 [] OTHER -> FALSE
Each == \A k \in DOMAIN list : Ok(list[k]) => Kind(list[k].id) # "unknown"
=============================================================================
