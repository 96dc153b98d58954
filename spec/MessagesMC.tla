----------------------------- MODULE MessagesMC -----------------------------
(* Writing and reading are inverse: for every message, version and values    *)
(* that fit, the frame is read as exactly the header and values written, and *)
(* what was read, written again, is the same frame.                          *)
EXTENDS Messages, TLC
CONSTANTS Marks, Deep
VARIABLES x
vars == <<x>>
Rep(n, b) == [i \in 1 .. n |-> b]
\* values for one field: short, full, with bytes that have to be escaped
Vals(f) ==
  CASE f.k = "fix" -> {Rep(f.n, b) : b \in Marks} \cup {[i \in 1 .. f.n |-> i]}
    [] f.k = "pad" -> {<<>>, <<65>>, <<0, 126>>, Rep(f.n, 125)} \cup (IF Deep THEN {Rep(f.n - 1, 66)} ELSE {})
    [] f.k = "len" -> {<<>>, <<126, 0>>, Rep(255, 65)}
    [] f.k = "rest" -> {<<65>>, <<126, 1>>, Rep(40, 125)}
    [] f.k = "list" -> {<<0>>, <<1, 0, 0, 0, 1, 4, 126, 0, 125, 1>>, <<2, 0, 0, 0, 132, 1, 9, 0, 0, 0, 16, 2, 65, 66>>}
Heads(id, ver) ==
  {[id |-> id, enc |-> e, v19 |-> ver = "2019", ext |-> z, pver |-> IF ver = "2019" THEN 1 ELSE 0, phone |-> p, ser |-> s, frag |-> g] :
   e \in {0, 5}, z \in {0, 1}, s \in {0, 32381}, p \in {<<1, 2>>, <<0, 7, 14, 7, 13>>},
   g \in (IF Deep THEN {<<>>, <<2, 1>>, <<258, 126>>} ELSE {<<>>, <<258, 126>>})}
\* one field at a time is varied, the others keep a plain value
Plain(f) == CASE f.k = "fix" -> Rep(f.n, 7) [] f.k = "pad" -> <<77>> [] f.k = "len" -> <<78>> [] f.k = "rest" -> <<79>> [] f.k = "list" -> <<0>>
Nul == [id |-> Heart, ver |-> "2013", vals |-> <<>>, h |-> [id |-> Heart, enc |-> 0, v19 |-> FALSE, ext |-> 0, pver |-> 0, phone |-> <<9>>, ser |-> 9, frag |-> <<>>]]
Init == x = Nul
Next == \E id \in Known, ver \in Vers : \E h \in Heads(id, ver) :
          LET l == Layout(id, ver) p == [i \in DOMAIN l |-> Plain(l[i])] IN
          \/ x' = [id |-> id, ver |-> ver, vals |-> p, h |-> h]
          \/ \E i \in DOMAIN l : \E v \in Vals(l[i]) : x' = [id |-> id, ver |-> ver, vals |-> [p EXCEPT ![i] = v], h |-> h]
Spec == Init /\ [][x = Nul /\ Next]_vars
\* 2011 and 2013 registrations can be told apart (the length decides) unless a 2011 plate is so long that it looks like 2013
Tells == x.id # Reg \/ x.ver # "2011" \/ Len(x.vals[7]) < 12
M == Parse(Feed(Idle, FrameOf(x.h, x.ver, x.vals)).fr[1])
OneFrame == Len(Feed(Idle, FrameOf(x.h, x.ver, x.vals)).fr) = 1 /\ WholeFrames(FrameOf(x.h, x.ver, x.vals))
Fit == \A i \in DOMAIN x.vals : Fits1(Layout(x.id, x.ver)[i], x.vals[i])
HeadBack == M.cls = "msg" /\ HeadOf(M) = x.h /\ M.len = Len(M.body) /\ M.body = BodyBytes(x.id, x.ver, x.vals)
BodyBack == Tells => LET r == ReadBody(x.id, IF x.id = Reg THEN VerOf(M) ELSE x.ver, M.body) IN ~r.bad /\ r.v = x.vals /\ r.p = Len(M.body) + 1
Again == Tells => LET v == IF x.id = Reg THEN VerOf(M) ELSE x.ver IN FrameOf(HeadOf(M), v, ReadBody(x.id, v, M.body).v) = FrameOf(x.h, x.ver, x.vals)
\* no two messages that differ look the same (read back, they are told apart): follows from HeadBack and BodyBack
Agrees == x.id \in {Reg, Auth, Loc} /\ Tells =>
            CASE x.id = Reg  -> RegFields(M) = [ver |-> VerOf(M), did |-> x.vals[5], plate |-> x.vals[7]]
              [] x.id = Auth -> AuthFields(M).code = x.vals[1]
              [] x.id = Loc  -> LocFields(M.body) = [lat |-> x.vals[3], lon |-> x.vals[4], alt |-> Word(x.vals[5], 1), spd |-> Word(x.vals[6], 1),
                                                     dir |-> Word(x.vals[7], 1), time |-> x.vals[8]]
=============================================================================
