------------------------------ MODULE Platform ------------------------------
(* Layer 3: the platform.  What a message does to the registrations, the    *)
(* last locations and the fragments being assembled, what it is answered    *)
(* with, and when silent terminals expire.                                  *)
(*                                                                          *)
(* The same operators are used by the exhaustive model (PlatformMC), by the *)
(* scenario generator (PlatformGen) and by the validation of executions of  *)
(* the real server (the Trace modules): there is one specification.         *)
EXTENDS Wire

CONSTANTS
  KeepMs,    \* silence after which a terminal expires
  SlackMs    \* how much later than two (three) times KeepMs an expiry may show

Offline  == 0
Online   == 1
Sleeping == 2

(* State: dev: phone -> registration, geo: phone -> last report of that     *)
(* registration, seg: <<phone, id>> -> fragments assembled so far.          *)
S0 == [dev |-> EmptyMap, geo |-> EmptyMap, seg |-> EmptyMap]

(* A registration.  [lo, hi] encloses the time of its last contact; z: it   *)
(* was already offline (status 0) at that contact ("yes", "no", "any").      *)
NewDev(q, c, code, lo, hi) ==
  [plate |-> q.plate, did |-> q.did, ver |-> q.ver, pver |-> q.pver, v19 |-> q.v19, imei |-> <<>>, sw |-> <<>>,
   status |-> Offline, conn |-> c, code |-> code, lo |-> lo, hi |-> hi, z |-> "yes"]

Contact(d, lo, hi) == [d EXCEPT !.lo = lo, !.hi = hi, !.z = IF d.status = Offline THEN "yes" ELSE "no"]

UnknownCode == <<-1>>   \* issued, but the reply that carried it was not seen

Plates(S)      == {S.dev[p].plate : p \in DOMAIN S.dev}
\* unfinished fragments belong to one registration: they go with it, and none are kept for a phone that is not registered
Forget(seg, p)  == [k \in {x \in DOMAIN seg : x[1] # p} |-> seg[k]]
DropDev(S, p)   == [S EXCEPT !.dev = Del(@, p), !.geo = Del(@, p), !.seg = Forget(@, p)]
SetDev(S, p, d) == [S EXCEPT !.dev = Put(@, p, d)]

(* A request: a whole message with its decoded fields *)
Req(m) ==
  LET b == [id |-> m.id, v19 |-> m.v19, pver |-> m.pver, phone |-> m.phone, nibs |-> m.nibs, ser |-> m.ser,
            plate |-> <<>>, did |-> <<>>, ver |-> "", code |-> <<>>, imei |-> <<>>, sw |-> <<>>, acc |-> 1, rep |-> <<>>]
  IN  CASE m.id = Reg  -> LET r == RegFields(m) IN [b EXCEPT !.plate = r.plate, !.did = r.did, !.ver = r.ver]
        [] m.id = Auth -> LET r == AuthFields(m) IN [b EXCEPT !.code = r.code, !.imei = r.imei, !.sw = r.sw]
        [] m.id = Loc  -> [b EXCEPT !.acc = StatusBit(m.body, 0), !.rep = SubSeq(m.body, 1, LocMin)]
        [] OTHER -> b

(* What handling one message amounts to: the new state, the replies (none   *)
(* or one), whether the connection is closed, whether the server pauses     *)
(* reading it for a moment, and whether the outcome is left open ("wild":   *)
(* the message does not follow the protocol).                               *)
Nothing(S) == [S |-> S, rep |-> <<>>, close |-> FALSE, pause |-> FALSE, wild |-> FALSE]
Answer(S, q, k, res) ==
  [Nothing(S) EXCEPT !.rep = <<[k |-> k, ser |-> q.ser, id |-> q.id, res |-> res, phone |-> q.phone,
                                v19 |-> q.v19, pver |-> q.pver, org |-> FALSE]>>]
CutOff(S) == [Nothing(S) EXCEPT !.close = TRUE]
Ignore(S) == [Nothing(S) EXCEPT !.pause = TRUE]

RegResult(S, q) == IF q.plate \in Plates(S) THEN 1 ELSE IF q.phone \in DOMAIN S.dev THEN 3 ELSE 0

Handle(S, c, q, lo, hi, code) ==
  LET p == q.phone
      d == S.dev[p]
  IN  CASE ~Supported(q.id) -> Ignore(S)
        [] q.id \in {TReply, PList, MList} -> Nothing(S)
        [] q.id = Reg ->
             LET r == RegResult(S, q) IN
             IF r # 0 THEN Answer(S, q, RReply, r)
             ELSE Answer([SetDev(S, p, NewDev(q, c, code, lo, hi)) EXCEPT !.geo = Del(@, p),
                            !.seg = Forget(@, p)], q, RReply, 0)
        [] q.id \in {Heart, Dereg, Auth, Loc} /\ p \notin DOMAIN S.dev -> CutOff(S)
        [] q.id = Heart -> Answer(SetDev(S, p, Contact(d, lo, hi)), q, GReply, 0)
        [] q.id = Dereg -> Answer(DropDev(S, p), q, GReply, 0)
        [] q.id = Auth ->
             IF q.code = d.code
             THEN Answer(SetDev(S, p, Contact([d EXCEPT !.status = Online, !.conn = c, !.imei = q.imei, !.sw = q.sw], lo, hi)),
                         q, GReply, 0)
             ELSE Answer(DropDev(S, p), q, GReply, 1)
        [] q.id = Loc ->
             LET d2 == IF q.acc = 0 THEN Contact([d EXCEPT !.status = Sleeping], lo, hi) ELSE d
             IN  Answer([SetDev(S, p, d2) EXCEPT !.geo = Put(@, p, q.rep)], q, GReply, 0)

(* Fragments.  Result: the new table and, when complete, the whole body.    *)
Assemble(seg, m) ==
  LET k    == <<m.phone, m.id>>
      have == k \in DOMAIN seg
      a    == seg[k]
      put(s) == IF s.idx = m.total THEN [seg |-> Del(seg, k), done |-> TRUE, body |-> s.data]
                ELSE [seg |-> Put(seg, k, s), done |-> FALSE, body |-> <<>>]
  IN  IF m.index = 1 /\ m.total > 0 THEN put([total |-> m.total, idx |-> 1, data |-> m.body])
      ELSE IF have /\ a.total = m.total /\ a.idx = m.index THEN [seg |-> seg, done |-> FALSE, body |-> <<>>]
      ELSE IF have /\ a.total = m.total /\ a.idx + 1 = m.index
           THEN put([total |-> m.total, idx |-> m.index, data |-> a.data \o m.body])
      ELSE [seg |-> Del(seg, k), done |-> FALSE, body |-> <<>>]

(* One frame's message, whole or fragment *)
HandleMsg(S, c, m, lo, hi, code) ==
  IF m.cls \in {"empty", "badsum"} THEN Ignore(S)
  ELSE IF m.cls # "msg" THEN [Nothing(S) EXCEPT !.wild = TRUE]
  ELSE IF ~m.frag
  THEN IF Supported(m.id) /\ ~Sound(m) THEN [Nothing(S) EXCEPT !.wild = TRUE]
       ELSE IF ~Supported(m.id) THEN Ignore(S)
       ELSE IF m.id = Auth /\ m.phone \in DOMAIN S.dev /\ S.dev[m.phone].code = UnknownCode THEN [Nothing(S) EXCEPT !.wild = TRUE]
       ELSE Handle(S, c, Req(m), lo, hi, code)
  ELSE LET a  == Assemble(S.seg, m)
           S1 == [S EXCEPT !.seg = IF m.phone \in DOMAIN S.dev THEN a.seg ELSE Forget(@, m.phone)]
           w  == [m EXCEPT !.body = a.body, !.len = Len(a.body), !.frag = FALSE]
       IN  IF m.len # Len(m.body) THEN [Nothing(S) EXCEPT !.wild = TRUE]
           ELSE IF ~Supported(m.id) THEN Ignore(S1)
           ELSE IF a.done
           THEN IF ~Sound(w) THEN [Nothing(S1) EXCEPT !.wild = TRUE] ELSE Handle(S1, c, Req(w), lo, hi, code)
           ELSE IF m.phone \notin DOMAIN S.dev THEN CutOff(S1)
           ELSE LET d == S.dev[m.phone] IN
                [Nothing(S1) EXCEPT !.rep = <<[k |-> GReply, ser |-> m.ser, id |-> m.id, res |-> 0, phone |-> m.phone,
                                              v19 |-> d.v19, pver |-> d.pver, org |-> TRUE]>>]

------------------------------------------------------------------------------
(* Expiry.  A terminal is looked at once per KeepMs, at moments the outside *)
(* cannot tell, so what time alone does is a window.                        *)
MayOffline(d, t)  == d.status # Offline /\ t - d.lo > KeepMs
MustOffline(d, t) == d.status # Offline /\ t - d.hi > 2 * KeepMs + SlackMs
MayRemove(d, t)   == t - d.lo > (IF d.z # "no" THEN KeepMs ELSE 2 * KeepMs - SlackMs)
MustRemove(d, t)  == t - d.hi > (IF d.z = "yes" THEN 2 * KeepMs ELSE 3 * KeepMs) + SlackMs
=============================================================================
