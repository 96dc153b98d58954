------------------------------ MODULE Framing ------------------------------
(* Layer 1: the byte stream of one direction of a connection and the frames *)
(* in it.  The reader is a three-state machine over single bytes, so what   *)
(* it delivers cannot depend on how the stream was cut into reads.          *)
EXTENDS Bytes

Delim == 126   \* 0x7e
Esc   == 125   \* 0x7d

\* reader state: outside a frame, or inside with the bytes since the opening delimiter
Idle == [in |-> FALSE, buf |-> <<>>]

\* one byte; result: new state and the frame contents completed by it (at most one)
FeedByte(st, b) ==
  IF b = Delim
  THEN IF ~st.in           THEN [st |-> [in |-> TRUE, buf |-> <<>>], fr |-> <<>>]
       ELSE IF st.buf = <<>> THEN [st |-> st, fr |-> <<>>]        \* delimiter run: the last one opens
       ELSE [st |-> Idle, fr |-> <<st.buf>>]
  ELSE IF st.in THEN [st |-> [st EXCEPT !.buf = Append(@, b)], fr |-> <<>>]
       ELSE [st |-> st, fr |-> <<>>]

\* The same over a whole byte string, by positions (linear for TLC).
\* acc: [in, start, from, frames]; content of a frame = bytes start+1 .. i-1.
Feed(st, bytes) ==
  LET n  == Len(bytes)
      ds == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : bytes[i] = Delim)
      \* last: position after which the current (open) content starts; pre: content carried over
      step(a, i) ==
        LET content == a.pre \o SubSeq(bytes, a.last + 1, i - 1)
        IN  IF ~a.in              THEN [in |-> TRUE, pre |-> <<>>, last |-> i, fr |-> a.fr]
            ELSE IF content = <<>> THEN [in |-> TRUE, pre |-> <<>>, last |-> i, fr |-> a.fr]
            ELSE [in |-> FALSE, pre |-> <<>>, last |-> i, fr |-> Append(a.fr, content)]
      e == FoldLeft(step, [in |-> st.in, pre |-> st.buf, last |-> 0, fr |-> <<>>], ds)
  IN  [st |-> IF e.in THEN [in |-> TRUE, buf |-> e.pre \o SubSeq(bytes, e.last + 1, n)] ELSE Idle,
       fr |-> e.fr]

\* FeedByte folded: the definition Feed must agree with (checked by TLC, see FramingMC)
FeedSlow(st, bytes) ==
  FoldLeft(LAMBDA a, b : LET r == FeedByte(a.st, b) IN [st |-> r.st, fr |-> a.fr \o r.fr],
           [st |-> st, fr |-> <<>>], bytes)

\* 0x7d 0x01 -> 0x7d, 0x7d 0x02 -> 0x7e, anything else unchanged
Unescape(s) ==
  IF \A i \in DOMAIN s : s[i] # Esc THEN s ELSE
  LET step(a, b) ==
        IF a.p THEN CASE b = 1   -> [o |-> Append(a.o, Esc), p |-> FALSE]
                      [] b = 2   -> [o |-> Append(a.o, Delim), p |-> FALSE]
                      [] b = Esc -> [o |-> Append(a.o, Esc), p |-> TRUE]
                      [] OTHER   -> [o |-> a.o \o <<Esc, b>>, p |-> FALSE]
        ELSE IF b = Esc THEN [o |-> a.o, p |-> TRUE]
        ELSE [o |-> Append(a.o, b), p |-> FALSE]
      e == FoldLeft(step, [o |-> <<>>, p |-> FALSE], s)
  IN  IF e.p THEN Append(e.o, Esc) ELSE e.o

EscByte(b) == CASE b = Esc -> <<Esc, 1>> [] b = Delim -> <<Esc, 2>> [] OTHER -> <<b>>
Escape(s)  == FoldLeft(LAMBDA a, b : a \o EscByte(b), <<>>, s)

\* what a correct sender puts on the wire for content s (without check code)
Wrap(s) == <<Delim>> \o Escape(Append(s, XorAll(s))) \o <<Delim>>

\* A byte string that is a sequence of whole, correctly escaped and checked frames
WholeFrames(bytes) ==
  LET r == Feed(Idle, bytes)
      total == FoldLeft(LAMBDA a, f : a + Len(f) + 2, 0, r.fr)
  IN  /\ ~r.st.in
      /\ total = Len(bytes)                                   \* nothing between or around the frames
      /\ \A k \in DOMAIN r.fr :
            /\ Escape(Unescape(r.fr[k])) = r.fr[k]             \* canonical escaping
            /\ XorAll(Unescape(r.fr[k])) = 0                   \* check code
=============================================================================
