----------------------------- MODULE TerminalMC -----------------------------
(* Exhaustive model of one simulated terminal: any platform message in any  *)
(* order, with real bodies.                                                 *)
EXTENDS Terminal, TLC

VARIABLES T, ev, val    \* val: ghost, id -> value named last in a setting
vars == <<T, ev, val>>

Phone == <<1, 2>>
Id1 == <<0, 0, 0, 49>>     \* a word
Id2 == <<0, 0, 0, 132>>    \* a byte
IdX == <<0, 0, 240, 1>>    \* unknown
It(id, v) == [id |-> id, val |-> v]
Bodies == {<<>>, <<It(Id1, <<0, 1>>)>>, <<It(Id1, <<0, 2>>), It(Id1, <<1, 0>>)>>, <<It(Id2, <<7>>), It(IdX, <<9, 9>>)>>,
           <<It(IdX, <<>>), It(Id2, <<8>>), It(Id1, <<0, 1>>)>>}
SetB(its) == FoldLeft(LAMBDA a, it : a \o ItemBytes(it), <<Len(its)>>, its)
M(v19, id, body, ser) == [cls |-> "msg", id |-> id, len |-> Len(body), enc |-> 0, frag |-> FALSE, v19 |-> v19, ext |-> 0, pver |-> 0,
                          nibs |-> Phone, phone |-> Phone, ser |-> ser, total |-> 0, index |-> 0, body |-> body]
Codes == {<<>>, <<65>>, <<0, 126>>}
Msgs(v) == {M(v, RReply, <<0, 1, r>> \o c, 5) : r \in {0, 1, 3}, c \in Codes}
           \cup {M(v, GReply, <<0, 1, 1, 2, r>>, 6) : r \in {0, 1}}
           \cup {M(v, PSet, SetB(b), s) : b \in Bodies, s \in {7, 65535}}
           \cup {M(v, PQuery, <<>>, 9), M(v, MQuery, <<3>> \o Zeros(23), 10), M(v, 33539, <<>>, 1)}
           \cup {[M(v, GReply, <<0, 1, 1, 2, 0>>, 6) EXCEPT !.cls = "badsum"]}

Init == \E v \in BOOLEAN : T = NewTerminal(Phone, v, <<1>>, <<>>) /\ ev = [m |-> M(v, 0, <<>>, 0), rep |-> <<>>] /\ val = EmptyMap
Next == \E m \in Msgs(T.v19) :
          LET h == THandle(T, m) IN
          /\ T' = h.T
          /\ ev' = [m |-> m, rep |-> h.rep]
          /\ val' = IF m.id = PSet /\ m.cls = "msg" /\ ~T.ended
                    THEN LET it == Items(From(m.body, 2)) IN
                         [x \in DOMAIN val \cup {it[k].id : k \in DOMAIN it} |->
                            LET hits == {k \in DOMAIN it : it[k].id = x} IN
                            IF hits = {} THEN val[x] ELSE it[CHOOSE k \in hits : \A j \in hits : j <= k].val]
                    ELSE val
Spec == Init /\ [][Next]_vars

Is(id) == ev'.m.cls = "msg" /\ ev'.m.id = id
\* C20: it authenticates exactly after an accepted registration, with the code it was given
AuthIff == [][(ev'.rep # <<>> /\ ev'.rep[1].id = Auth) <=> (~T.ended /\ Is(RReply) /\ ev'.m.body[3] = 0)]_vars
AuthCode == [][ev'.rep # <<>> /\ ev'.rep[1].id = Auth =>
                 LET b == ev'.rep[1].body c == From(ev'.m.body, 4) IN
                 IF T.v19 THEN b = <<Len(c)>> \o c \o <<1>> \o Zeros(14) \o Zeros(20) ELSE b = c]_vars
OnlineOnly == [][T'.online /\ ~T.online => Is(GReply) /\ ev'.m.body[5] = 0]_vars
EndedOnly == [][T'.ended /\ ~T.ended => Is(RReply) /\ ev'.m.body[3] # 0]_vars
SilentAfter == [][T.ended => ev'.rep = <<>> /\ T' = T]_vars
OneAnswer == [][Len(ev'.rep) = (IF ~T.ended /\ (Is(PSet) \/ Is(PQuery) \/ Is(MQuery) \/ (Is(RReply) /\ ev'.m.body[3] = 0)) THEN 1 ELSE 0)]_vars
Echo == [][ev'.rep # <<>> /\ ev'.rep[1].id \in {TReply, MList} => SubSeq(ev'.rep[1].body, 1, 2) = WordB(ev'.m.ser)]_vars
\* C19, C20: it has the values named last, of the parameters it knows
LastSet == T.params = [x \in {y \in DOMAIN val : Kind(y) # "unknown"} |-> val[x]]
=============================================================================
