------------------------------- MODULE Params -------------------------------
(* Terminal parameters: which ids exist, how a value is encoded, and what a *)
(* parameter-setting command contains for a requested list.                 *)
EXTENDS Platform

\* ids are 4-byte sequences; the known ones have high word 0
DWordIds == (1 .. 7) \cup {24, 25, 27, 28} \cup (32 .. 34) \cup (39 .. 41) \cup (44 .. 48) \cup (69 .. 71)
            \cup (80 .. 90) \cup {100, 101} \cup (112 .. 116) \cup {128, 147, 149, 256, 258}
WordIds  == {49, 91, 92, 93, 94, 129, 130, 257, 259}
ByteIds  == {132, 144, 145, 146, 148}
GbkIds   == (16 .. 23) \cup {26, 29} \cup (35 .. 38) \cup (64 .. 68) \cup {72, 73, 131}
TextIds  == {272}
HexIds   == {50} \cup (117 .. 119) \cup (121 .. 124)

IdNum(id) == IF id[1] = 0 /\ id[2] = 0 THEN Word(id, 3) ELSE -1
Kind(id) ==
  LET n == IdNum(id) IN
  CASE n \in DWordIds -> "dword" [] n \in WordIds -> "word" [] n \in ByteIds -> "byte"
    [] n \in GbkIds -> "gbk" [] n \in TextIds -> "text" [] n \in HexIds -> "hex" [] OTHER -> "unknown"

(* A requested value v is a JSON number (v.t = "num": v.b its 8 big-endian   *)
(* bytes, v.int whether it is a non-negative integer below 2^53) or a JSON   *)
(* string (v.t = "str": v.utf8, v.gbk with v.gbkOk, v.hex with v.hexOk).     *)
TypeFits(k, v) == CASE k \in {"dword", "word", "byte"} -> v.t = "num"
                    [] k \in {"gbk", "text", "hex"} -> v.t = "str"
                    [] OTHER -> TRUE
Fits(v, n)  == v.int /\ \A i \in 1 .. 8 - n : v.b[i] = 0
Low(v, n)   == SubSeq(v.b, 9 - n, 8)
\* the encoding, or <<>> in a sequence of none if it cannot be represented
Encoding(k, v) ==
  CASE k = "dword" -> IF Fits(v, 4) THEN <<Low(v, 4)>> ELSE <<>>
    [] k = "word"  -> IF Fits(v, 2) THEN <<Low(v, 2)>> ELSE <<>>
    [] k = "byte"  -> IF Fits(v, 1) THEN <<Low(v, 1)>> ELSE <<>>
    [] k = "gbk"   -> IF v.gbkOk /\ Len(v.gbk) <= 255 THEN <<v.gbk>> ELSE <<>>
    [] k = "text"  -> IF Len(v.utf8) <= 255 THEN <<v.utf8>> ELSE <<>>
    [] k = "hex"   -> IF v.hexOk /\ Len(v.hex) <= 255 THEN <<v.hex>> ELSE <<>>
    [] OTHER -> <<>>

\* the request as a whole is invalid if a known parameter's value is of the wrong JSON type
ValidRequest(items) == \A k \in DOMAIN items : TypeFits(Kind(items[k].id), items[k].v)

ExpectedItems(items) ==
  LET enc(it) == Encoding(Kind(it.id), it.v)
      kept == SelectSeq(items, LAMBDA it : enc(it) # <<>>)
  IN  [k \in DOMAIN kept |-> [id |-> kept[k].id, val |-> enc(kept[k])[1]]]
ItemBytes(it) == it.id \o <<Len(it.val)>> \o it.val
SetBody(items) ==
  LET e == ExpectedItems(items)
  IN  FoldLeft(LAMBDA a, it : a \o ItemBytes(it), <<Len(e) % 256>>, e)
MaxBody == 1023
Sendable(items) == Len(SetBody(items)) <= MaxBody
=============================================================================
