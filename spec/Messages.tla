------------------------------ MODULE Messages ------------------------------
(* The tables of the protocol: the fields of the header and of every        *)
(* message the code base knows, in both directions, and how a message is    *)
(* written to and read from bytes.  Field values are byte strings.          *)
EXTENDS Params

QTime  == 4        \* 0x0004 server time query
RTime  == 32772    \* 0x8004 server time
Known  == TerminalIds \cup {QTime, GReply, RTime, RReply, PSet, PQuery, MQuery}
Vers   == {"2011", "2013", "2019"}

(* A layout is a sequence of fields [k, n]:                                  *)
(*   fix   n bytes as they are (numbers, BCD times)                          *)
(*   pad   n bytes, the value followed by zero bytes                         *)
(*   len   a length byte and so many bytes                                   *)
(*   rest  the rest of the body                                              *)
(*   list  a count byte and parameter items                                  *)
Fx(n) == [k |-> "fix", n |-> n]
Pd(n) == [k |-> "pad", n |-> n]
Ln    == [k |-> "len", n |-> 0]
Rest  == [k |-> "rest", n |-> 0]
Lst   == [k |-> "list", n |-> 0]
\* channel, begin, end, alarms, more alarms, kind, stream, storage
Media == <<Fx(1), Fx(6), Fx(6), Fx(4), Fx(4), Fx(1), Fx(1), Fx(1)>>
Layout(id, ver) ==
  CASE id \in {TReply, GReply} -> <<Fx(2), Fx(2), Fx(1)>>              \* serial, id, result
    [] id = Reg    -> CASE ver = "2019" -> <<Fx(2), Fx(2), Pd(11), Pd(30), Pd(30), Fx(1), Rest>>
                        [] ver = "2013" -> <<Fx(2), Fx(2), Pd(5), Pd(20), Pd(7), Fx(1), Rest>>
                        [] OTHER        -> <<Fx(2), Fx(2), Pd(5), Pd(8), Pd(7), Fx(1), Rest>>
    [] id = Auth   -> IF ver = "2019" THEN <<Ln, Fx(15), Pd(20)>> ELSE <<Rest>>
    [] id = PList  -> <<Fx(2), Lst>>
    [] id = Loc    -> <<Fx(4), Fx(4), Fx(4), Fx(4), Fx(2), Fx(2), Fx(2), Fx(6)>>
    [] id = MList  -> <<Fx(2), Fx(4)>> \o Media \o <<Fx(4)>>
    [] id = RReply -> <<Fx(2), Fx(1), Rest>>
    [] id = RTime  -> <<Fx(6)>>
    [] id = PSet   -> <<Lst>>
    [] id = MQuery -> Media
    [] OTHER       -> <<>>

Field(f, v) ==
  CASE f.k \in {"fix", "pad"} -> SubSeq(v, 1, Min2(f.n, Len(v))) \o Zeros(Max2(0, f.n - Len(v)))   \* too long: cut, the others stay in place
    [] f.k = "len" -> <<Len(v)>> \o v
    [] OTHER -> v
Fits1(f, v) ==
  CASE f.k = "fix" -> Len(v) = f.n
    [] f.k = "pad" -> Len(v) <= f.n /\ (v = <<>> \/ v[Len(v)] # 0)
    [] f.k = "len" -> Len(v) <= 255
    [] OTHER -> TRUE
BodyBytes(id, ver, vals) == LET l == Layout(id, ver) IN FoldLeft(LAMBDA a, i : a \o Field(l[i], vals[i]), <<>>, [i \in DOMAIN l |-> i])

\* reading: the values, or a shorter sequence if the body is too short
ReadBody(id, ver, body) ==
  LET l == Layout(id, ver)
      step(a, f) ==
        LET n == CASE f.k \in {"fix", "pad"} -> f.n
                   [] f.k = "len" -> IF a.p <= Len(body) THEN 1 + body[a.p] ELSE 1
                   [] OTHER -> Len(body) - a.p + 1
            raw == SubSeq(body, a.p, a.p + n - 1)
        IN  IF a.bad \/ a.p + n - 1 > Len(body) THEN [a EXCEPT !.bad = TRUE]
            ELSE [p |-> a.p + n, bad |-> FALSE,
                  v |-> Append(a.v, CASE f.k = "pad" -> TrimZeros(raw) [] f.k = "len" -> From(raw, 2) [] OTHER -> raw)]
  IN  FoldLeft(step, [p |-> 1, bad |-> FALSE, v |-> <<>>], l)

\* the version a message is of, as far as it can be told from it
VerOf(m) == IF m.v19 THEN "2019" ELSE IF m.id = Reg THEN RegLayout(m).ver ELSE "2013"

(* Header: id, properties, protocol version (2019), phone, serial, fragment *)
\* h: [id, enc, v19, ext, pver, phone (digits), ser, frag (<<>> or <<total, index>>)]
Pairs(n) == [i \in 1 .. Len(n) \div 2 |-> 16 * n[2 * i - 1] + n[2 * i]]
PadF(digits, n) == [i \in 1 .. n - Len(digits) |-> 15] \o digits
HeadBytes(h, len) ==
  WordB(h.id) \o WordB(len + 1024 * h.enc + (IF h.frag # <<>> THEN 8192 ELSE 0) + (IF h.v19 THEN 16384 ELSE 0) + 32768 * h.ext)
  \o (IF h.v19 THEN <<h.pver>> ELSE <<>>) \o Pairs(PadF(h.phone, IF h.v19 THEN 20 ELSE 12)) \o WordB(h.ser)
  \o (IF h.frag # <<>> THEN WordB(h.frag[1]) \o WordB(h.frag[2]) ELSE <<>>)
HeadOf(m) == [id |-> m.id, enc |-> m.enc, v19 |-> m.v19, ext |-> m.ext, pver |-> m.pver, phone |-> m.phone, ser |-> m.ser,
              frag |-> IF m.frag THEN <<m.total, m.index>> ELSE <<>>]

\* the whole message as one frame
FrameOf(h, ver, vals) == LET b == BodyBytes(h.id, ver, vals) IN Wrap(HeadBytes(h, Len(b)) \o b)
=============================================================================
