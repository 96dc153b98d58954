------------------------------ MODULE FramingMC ------------------------------
(* The framing layer on all byte strings up to MaxLen over an alphabet with *)
(* the two special bytes, their escapes and an ordinary byte: the reader    *)
(* delivers the same frames however the stream is cut, what a sender wraps  *)
(* comes back, damage is noticed.                                           *)
EXTENDS Framing, TLC

CONSTANTS Alphabet, MaxLen
VARIABLES s, cut, st, got      \* the stream so far, where reads ended, the reader after it, frames delivered by it
vars == <<s, cut, st, got>>

Init == s = <<>> /\ cut = 0 /\ st = Idle /\ got = <<>>
\* a byte arrives and stays in the read buffer, or the buffer (bytes after cut) is read
Byte(b) == Len(s) < MaxLen /\ s' = Append(s, b) /\ UNCHANGED <<cut, st, got>>
Read == /\ cut < Len(s)
        /\ LET r == Feed(st, From(s, cut + 1)) IN st' = r.st /\ got' = got \o r.fr
        /\ cut' = Len(s) /\ UNCHANGED s
Next == (\E b \in Alphabet : Byte(b)) \/ Read
Spec == Init /\ [][Next]_vars

\* C01: whatever the cuts, the frames delivered so far are those of the whole prefix, byte by byte
ChunkFree == LET f == FeedSlow(Idle, SubSeq(s, 1, cut)) IN got = f.fr /\ st = f.st
\* C03: what is wrapped is one whole frame and comes back unchanged
RoundTrip == LET w == Wrap(s) r == Feed(Idle, w) IN
             /\ WholeFrames(w)
             /\ r.st = Idle /\ Len(r.fr) = 1
             /\ Unescape(r.fr[1]) = Append(s, XorAll(s))
\* several wrapped messages in a row, and after noise outside frames
Sequence == LET w == Wrap(s) r == Feed(Idle, w \o w) IN Len(r.fr) = 2 /\ r.fr[1] = r.fr[2]
NoDelimInside == \A k \in DOMAIN got : Delim \notin {got[k][i] : i \in DOMAIN got[k]} /\ got[k] # <<>>
\* C02: any single changed content byte is noticed
Damage == LET c == Append(s, XorAll(s)) IN \A i \in DOMAIN c, b \in Alphabet : b # c[i] => XorAll([c EXCEPT ![i] = b]) # 0
EscInverse == Unescape(Escape(s)) = s
=============================================================================
