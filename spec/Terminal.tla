------------------------------ MODULE Terminal ------------------------------
(* Layer 4: the simulated terminal.  What it does with a message of the     *)
(* platform.  One specification for the exhaustive model (TerminalMC), the  *)
(* closed loop with the platform (LoopMC) and the validation of recorded    *)
(* executions (TerminalTrace).                                              *)
EXTENDS Params

(* A terminal: phone (digits), v19, imei, sw: its identity; online: it has  *)
(* seen a success reply; ended: it gave up; set: its parameters are known   *)
(* (it was set, or queried, at least once); params: id -> value bytes.      *)
NewTerminal(phone, v19, imei, sw) ==
  [phone |-> phone, v19 |-> v19, imei |-> imei, sw |-> sw, online |-> FALSE, ended |-> FALSE, set |-> FALSE, params |-> EmptyMap]

PlatformIds == {GReply, RReply, PSet, PQuery, MQuery}

\* a field of n bytes, filled up with zeros
Fill(s, n) == s \o Zeros(n - Len(s))

\* length a value of this kind of parameter must have (-1: any)
KindLen(k) == CASE k = "dword" -> 4 [] k = "word" -> 2 [] k = "byte" -> 1 [] OTHER -> -1
SoundItem(it) == LET k == Kind(it.id) IN k = "unknown" \/ KindLen(k) = -1 \/ Len(it.val) = KindLen(k)

SoundT(m) ==
  /\ m.len = Len(m.body) /\ ~m.frag
  /\ CASE m.id = GReply -> Len(m.body) = 5
       [] m.id = RReply -> Len(m.body) >= 3 /\ (m.v19 => Len(m.body) <= 3 + 255)
       [] m.id = PSet   -> Len(m.body) >= 1 /\ ItemsExact(From(m.body, 2), m.body[1])
                           /\ LET it == Items(From(m.body, 2)) IN \A k \in DOMAIN it : SoundItem(it[k])
       [] m.id = MQuery -> Len(m.body) = 24
       [] OTHER -> TRUE

\* the parameters after a setting: the last value named for each known id
SetParams(ps, items) ==
  FoldLeft(LAMBDA a, it : IF Kind(it.id) = "unknown" THEN a ELSE Put(a, it.id, it.val), ps, items)

(* What handling a message amounts to.  rep: expected answers (none or one),*)
(* each with its id and body, or with body AnyBody.                           *)
TNothing(T) == [T |-> T, rep |-> <<>>, pause |-> FALSE, wild |-> FALSE]
TAnswer(T, id, body) == [TNothing(T) EXCEPT !.rep = <<[id |-> id, body |-> body]>>]
AnyBody == <<-1>>

AuthBody(T, code) == IF T.v19 THEN <<Len(code)>> \o code \o Fill(T.imei, 15) \o Fill(T.sw, 20) ELSE code

THandle(T, m) ==
  IF T.ended THEN TNothing(T)
  ELSE IF m.cls \in {"empty", "badsum"} THEN [TNothing(T) EXCEPT !.pause = TRUE]
  ELSE IF m.cls # "msg" \/ m.phone # T.phone \/ m.v19 # T.v19 THEN [TNothing(T) EXCEPT !.wild = TRUE]
  ELSE IF m.id \notin PlatformIds
       THEN IF m.id \in TerminalIds THEN [TNothing(T) EXCEPT !.wild = TRUE] ELSE [TNothing(T) EXCEPT !.pause = TRUE]
  ELSE IF ~SoundT(m) THEN [TNothing(T) EXCEPT !.wild = TRUE]
  ELSE CASE m.id = GReply -> TNothing([T EXCEPT !.online = @ \/ m.body[5] = 0])
         [] m.id = RReply -> IF m.body[3] # 0 THEN TNothing([T EXCEPT !.ended = TRUE])
                             ELSE TAnswer(T, Auth, AuthBody(T, From(m.body, 4)))
         [] m.id = PSet   -> TAnswer([T EXCEPT !.set = TRUE, !.params = SetParams(@, Items(From(m.body, 2)))],
                                     TReply, WordB(m.ser) \o WordB(PSet) \o <<0>>)
         [] m.id = PQuery -> TAnswer(T, PList, AnyBody)
         [] m.id = MQuery -> TAnswer(T, MList, WordB(m.ser) \o <<0, 0, 0, 1>> \o SubSeq(m.body, 1, 13))

(* The answer to a parameter query: the serial number, the number of items, *)
(* the items: every parameter once with its value.                          *)
ParamsOf(body) == LET it == Items(From(body, 4)) IN
                  [id \in {it[k].id : k \in DOMAIN it} |-> it[CHOOSE k \in DOMAIN it : it[k].id = id].val]
SoundList(body) == /\ Len(body) >= 3
                   /\ ItemsExact(From(body, 4), body[3])
                   /\ LET it == Items(From(body, 4)) IN \A j, k \in DOMAIN it : it[j].id = it[k].id => j = k
\* what a first query shows, before any setting, is what the terminal has from then on
Learn(T, body) == IF T.set \/ ~SoundList(body) THEN T ELSE [T EXCEPT !.set = TRUE, !.params = ParamsOf(body)]
ListSize(T) == FoldLeft(LAMBDA n, id : n + 5 + Len(T.params[id]), 3, SetToSeq(DOMAIN T.params))
=============================================================================
