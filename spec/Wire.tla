-------------------------------- MODULE Wire --------------------------------
(* Layer 2: the JT/T 808 message header and the fields of message bodies.   *)
EXTENDS Framing

\* message ids
TReply == 1      \* 0x0001 terminal general reply
Heart  == 2      \* 0x0002
Dereg  == 3      \* 0x0003
Reg    == 256    \* 0x0100
Auth   == 258    \* 0x0102
PList  == 260    \* 0x0104 parameter list
Loc    == 512    \* 0x0200
MList  == 4613   \* 0x1205 media list
GReply == 32769  \* 0x8001 platform general reply
RReply == 33024  \* 0x8100 registration reply
PSet   == 33027  \* 0x8103
PQuery == 33028  \* 0x8104
MQuery == 37381  \* 0x9205
PlatformBase == 32768

TerminalIds == {TReply, Heart, Dereg, Reg, Auth, PList, Loc, MList}
Supported(id) == id \in TerminalIds

\* The message in one frame's content.  cls: "empty", "badsum", "short" or "msg".
Parse(content) ==
  LET raw == Unescape(content)
      p   == SubSeq(raw, 1, Len(raw) - 1)
      nil == [cls |-> "short", id |-> 0, len |-> 0, enc |-> 0, frag |-> FALSE, v19 |-> FALSE, ext |-> 0, pver |-> 0,
              nibs |-> <<>>, phone |-> <<>>, ser |-> 0, total |-> 0, index |-> 0, body |-> <<>>]
  IN  IF raw = <<>> THEN [nil EXCEPT !.cls = "empty"]
      ELSE IF XorAll(raw) # 0 THEN [nil EXCEPT !.cls = "badsum"]
      ELSE IF Len(p) < 4 THEN nil
      ELSE LET attr == Word(p, 3)
               v19  == Bit(attr, 14) = 1
               frag == Bit(attr, 13) = 1
               ph   == IF v19 THEN 6 ELSE 5
               pl   == IF v19 THEN 10 ELSE 6
               hl   == ph + pl + 1 + (IF frag THEN 4 ELSE 0)   \* header length
           IN  IF Len(p) < hl THEN nil
               ELSE LET nibs == Nibbles(SubSeq(p, ph, ph + pl - 1)) IN
                    [cls   |-> "msg", id |-> Word(p, 1), len |-> attr % 1024, enc |-> (attr \div 1024) % 8,
                     frag  |-> frag, v19 |-> v19, ext |-> Bit(attr, 15),
                     pver  |-> IF v19 THEN p[5] ELSE 0,
                     nibs  |-> nibs, phone |-> StripF(nibs),
                     ser   |-> Word(p, ph + pl),
                     total |-> IF frag THEN Word(p, hl - 3) ELSE 0,
                     index |-> IF frag THEN Word(p, hl - 1) ELSE 0,
                     body  |-> From(p, hl + 1)]

ParseAll(bytes) == LET f == Feed(Idle, bytes).fr IN [k \in DOMAIN f |-> Parse(f[k])]

------------------------------------------------------------------------------
(* Registration body: province, city, manufacturer, model, id, colour, plate *)
RegLayout(m) ==
  IF m.v19 THEN [ver |-> "2019", a |-> 11, b |-> 30, c |-> 30]
  ELSE IF m.len - 4 > 5 + 20 + 7 + 1 THEN [ver |-> "2013", a |-> 5, b |-> 20, c |-> 7]
  ELSE [ver |-> "2011", a |-> 5, b |-> 8, c |-> 7]
RegMin(m) == LET l == RegLayout(m) IN 4 + l.a + l.b + l.c + 1
RegFields(m) ==
  LET l == RegLayout(m)
      o == 4 + l.a + l.b
  IN  [ver |-> l.ver, did |-> TrimZeros(SubSeq(m.body, o + 1, o + l.c)), plate |-> From(m.body, o + l.c + 2)]

(* Authentication body: the code; in 2019 length, code, IMEI, software version *)
AuthFields(m) ==
  IF m.v19 THEN LET n == m.body[1] IN
                [code |-> SubSeq(m.body, 2, n + 1), imei |-> SubSeq(m.body, n + 2, n + 16),
                 sw   |-> TrimZeros(SubSeq(m.body, n + 17, n + 36))]
  ELSE [code |-> m.body, imei |-> <<>>, sw |-> <<>>]

(* Location body: alarm 4, status 4, latitude 4, longitude 4, altitude 2,    *)
(* speed 2, direction 2, time BCD 6 (32-bit words kept as bytes).            *)
LocMin == 28
StatusBit(body, k) == Bit(body[8 - k \div 8], k % 8)
LocFields(body) ==
  [lat |-> SubSeq(body, 9, 12), lon |-> SubSeq(body, 13, 16), alt |-> Word(body, 17), spd |-> Word(body, 19),
   dir |-> Word(body, 21), time |-> SubSeq(body, 23, 28)]
\* the flags of the status word, in the order of the protocol's table
LocFlags(body) ==
  LET b(k) == StatusBit(body, k) IN
  <<b(0), b(1), b(2), b(3), b(4), b(5), b(8) + 2 * b(9), b(10), b(11), b(12), b(13), b(14), b(15), b(16), b(17),
    b(18), b(19), b(20), b(21), b(22)>>
\* the bits that carry flags
FlagBits == (0 .. 5) \cup (8 .. 22)

(* Parameter items: id 4 bytes, length 1 byte, value *)
RECURSIVE Items(_)
Items(b) ==   \* the items of b, ending with an item of id <<>> if b does not divide into items
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) < 5 \/ Len(b) < 5 + b[5] THEN <<[id |-> <<>>, val |-> b]>>
  ELSE <<[id |-> SubSeq(b, 1, 4), val |-> SubSeq(b, 6, 5 + b[5])]>> \o Items(From(b, 6 + b[5]))
ItemsExact(b, n) == LET it == Items(b) IN Len(it) = n /\ \A k \in DOMAIN it : it[k].id # <<>>

\* the message is what a terminal following the protocol sends: declared length right, body long enough
Sound(m) ==
  /\ m.len = Len(m.body)
  /\ CASE m.id = Reg  -> Len(m.body) >= RegMin(m)
       [] m.id = Auth -> m.v19 => Len(m.body) >= 1 /\ Len(m.body) >= m.body[1] + 36
       [] m.id = Loc  -> Len(m.body) >= LocMin
       [] m.id = TReply -> Len(m.body) >= 5
       [] m.id = PList -> Len(m.body) >= 3 /\ ItemsExact(From(m.body, 4), m.body[3])
       [] m.id = MList -> Len(m.body) >= 34
       [] OTHER -> TRUE

(* Platform replies as they appear on the wire *)
ReplyFields(m) ==
  IF m.id = GReply /\ Len(m.body) = 5
  THEN [k |-> GReply, ser |-> Word(m.body, 1), id |-> Word(m.body, 3), res |-> m.body[5], code |-> <<>>]
  ELSE IF m.id = RReply /\ Len(m.body) >= 3
  THEN [k |-> RReply, ser |-> Word(m.body, 1), id |-> Reg, res |-> m.body[3], code |-> From(m.body, 4)]
  ELSE [k |-> m.id, ser |-> -1, id |-> -1, res |-> -1, code |-> <<>>]
=============================================================================
