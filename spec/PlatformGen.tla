---------------------------- MODULE PlatformGen ----------------------------
(* Scenario generator: random behaviours of the platform model (tlc         *)
(* -simulate), each written out as a script of stimuli for the real server. *)
(* The weights W say how often each kind of stimulus is chosen; stimuli     *)
(* that the model says are not possible (sending on a closed connection,    *)
(* say) are never chosen.                                                   *)
EXTENDS PlatformMC, Json

CONSTANTS MaxLen, W, Ticks

VARIABLES hist, done,
          pick    \* the kind of the next stimulus, chosen first
gvars == <<S, open, chk, now, ev, last, hist, done, pick>>

Log(r) == hist' = Append(hist, r) /\ pick' = "" /\ UNCHANGED done
On(k) == pick = k
Calm == \A p \in DOMAIN S.dev : ~Due(p)
Known == DOMAIN S.dev
Free == Phones \ Known

Say(c, q, how) == Msg(c, q) /\ Log([a |-> "msg", c |-> c, id |-> q.id, p |-> q.phone, l |-> q.plate, acc |-> q.acc, how |-> how])
FragOf(p, id, tot, i) == [cls |-> "msg", id |-> id, len |-> 0, enc |-> 0, frag |-> TRUE, v19 |-> FALSE, ext |-> 0, pver |-> 0,
                          nibs |-> <<>>, phone |-> p, ser |-> 1, total |-> tot, index |-> i, body |-> <<>>]
Silent == S' = S /\ open' = open /\ chk' = chk /\ now' = now /\ last' = last /\ ev' = None

\* a fragment; bodies are filled in later, here only whether it completes and whether the phone is known
SayFrag(c, p, id, tot, i) ==
  LET a == Assemble(S.seg, FragOf(p, id, tot, i)) IN
  /\ c \in open
  /\ open' = IF p \in Known THEN open ELSE open \ {c}
  /\ S' = [S EXCEPT !.seg = IF p \in Known THEN a.seg ELSE Forget(@, p)]
  /\ UNCHANGED <<chk, now, last>> /\ ev' = None
  /\ Log([a |-> "frag", c |-> c, id |-> id, p |-> p, total |-> tot, index |-> i])
NextIndex(p, id) == LET k == <<p, id>> IN IF k \in DOMAIN S.seg THEN S.seg[k].idx + 1 ELSE 1
NextTotal(p, id, t) == LET k == <<p, id>> IN IF k \in DOMAIN S.seg THEN S.seg[k].total ELSE t

GInit == Init /\ hist = <<>> /\ done = FALSE /\ pick = ""
Act ==
  \/ On("open") /\ \E c \in Conns : Open(c) /\ Log([a |-> "open", c |-> c])
  \/ On("gone") /\ \E c \in Conns : PeerGone(c) /\ Log([a |-> "close", c |-> c])
  \/ On("reset") /\ \E c \in Conns : PeerGone(c) /\ Log([a |-> "reset", c |-> c])
  \/ On("reg") /\ \E c \in Conns, p \in Phones, l \in PlateSet :
        Say(c, [Q0 EXCEPT !.id = Reg, !.phone = p, !.plate = l], "")
  \/ On("regfree") /\ \E c \in Conns, p \in Phones :       \* a registration that will succeed if its plate is free
        p \in Free /\ Say(c, [Q0 EXCEPT !.id = Reg, !.phone = p, !.plate = p], "")
  \/ On("auth") /\ \E c \in Conns, p \in Phones :
        p \in Known /\ Say(c, [Q0 EXCEPT !.id = Auth, !.phone = p, !.code = S.dev[p].code], "right")
  \/ On("authown") /\ \E c \in Conns, p \in Phones :       \* on the terminal's own connection
        p \in Known /\ c = S.dev[p].conn /\ Say(c, [Q0 EXCEPT !.id = Auth, !.phone = p, !.code = S.dev[p].code], "right")
  \/ On("badauth") /\ \E c \in Conns, p \in Phones :
        Say(c, [Q0 EXCEPT !.id = Auth, !.phone = p, !.code = Wrong], "wrong")
  \/ On("heart") /\ \E c \in Conns, p \in Phones : p \in Known /\ Say(c, [Q0 EXCEPT !.id = Heart, !.phone = p], "")
  \/ On("dereg") /\ \E c \in Conns, p \in Phones : p \in Known /\ Say(c, [Q0 EXCEPT !.id = Dereg, !.phone = p], "")
  \/ On("loc") /\ \E c \in Conns, p \in Phones, x \in {0, 1} :
        p \in Known /\ Say(c, [Q0 EXCEPT !.id = Loc, !.phone = p, !.acc = x], "")
  \/ On("stranger") /\ \E c \in Conns, p \in Phones, i \in {Heart, Dereg, Auth, Loc} :
        p \in Free /\ Say(c, [Q0 EXCEPT !.id = i, !.phone = p, !.code = Wrong], "wrong")
  \/ On("noreply") /\ \E c \in Conns, p \in Phones, i \in {TReply, PList, MList} : Say(c, [Q0 EXCEPT !.id = i, !.phone = p], "")
  \/ On("platform") /\ \E c \in Conns, p \in Phones, i \in {GReply, RReply, PSet, PQuery, MQuery} :
        Say(c, [Q0 EXCEPT !.id = i, !.phone = p], "")
  \/ On("unsup") /\ \E c \in Conns, p \in Phones : Say(c, [Q0 EXCEPT !.id = 1792, !.phone = p], "")
  \/ On("bad") /\ \E c \in Conns, p \in Phones, i \in {Heart, Dereg, Reg, Auth, Loc} :
        c \in open /\ Silent /\ Log([a |-> "bad", c |-> c, id |-> i, p |-> p, l |-> p])
  \/ On("frag") /\ \E c \in Conns, p \in Phones, i \in {Heart, Auth, Loc}, t \in {1, 2, 3} :   \* the next one in order
        p \in Known /\ SayFrag(c, p, i, NextTotal(p, i, t), NextIndex(p, i))
  \/ On("fragany") /\ \E c \in Conns, p \in Phones, i \in {Heart, Auth, Loc, 1792}, t \in 0 .. 3, k \in 0 .. 4 : p \in Known /\ SayFrag(c, p, i, t, k)
  \/ On("fragstranger") /\ \E c \in Conns, p \in Phones, i \in {Heart, Loc}, k \in {1, 2} : p \in Free /\ SayFrag(c, p, i, 3, k)
  \/ On("geo") /\ \E p \in Phones : p \in Known /\ Silent /\ Log([a |-> "geo", p |-> p])
  \/ On("geoany") /\ \E p \in Phones : Silent /\ Log([a |-> "geo", p |-> p])
  \/ pick \in {"pq", "ps", "invalid", "oversize", "mistyped"} /\ \E p \in Phones : Cmd(p) /\ Log([a |-> pick, p |-> p])
  \/ On("tick") /\ \E t \in Ticks :
        /\ now' = now + t /\ ev' = [None EXCEPT !.a = "tick"] /\ UNCHANGED <<S, open, chk, last>>
        /\ Log([a |-> "tick", ms |-> t])
Pick(k) == pick' = k /\ UNCHANGED <<S, open, chk, now, ev, last, hist, done>>
GNext ==
  \/ \E p \in DOMAIN S.dev : Check(p) /\ UNCHANGED <<hist, done, pick>>
  \/ Calm /\ Len(hist) < MaxLen /\ pick = "" /\ \E k \in DOMAIN W : \E w \in 1 .. W[k] : Pick(k)
  \/ Calm /\ pick # "" /\ Act
  \/ Calm /\ pick # "" /\ ~ENABLED Act /\ Pick("")
  \/ Calm /\ Len(hist) >= MaxLen /\ ~done /\ done' = TRUE /\ PrintT("SCRIPT " \o ToJson(hist)) /\ UNCHANGED <<S, open, chk, now, ev, last, hist, pick>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
