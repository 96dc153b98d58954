----------------------------- MODULE PlatformMC -----------------------------
(* Exhaustive model of the platform with a few terminals and connections:   *)
(* any message at any time on any connection, connections coming and going, *)
(* time passing and the expiry checks running.  The messages are handled by *)
(* the operators of Platform.  Time is kept absolute but states are told    *)
(* apart by ages only (View), so the explored behaviours have no horizon.   *)
EXTENDS Params, TLC

CONSTANTS Phones, PlateSet, Conns, TickMs, WithFrag, WithCmd

VARIABLES S, open, chk, now, ev,
          last    \* ghost: phone -> [conn, rep]: where it last registered or authenticated, its last report since
vars == <<S, open, chk, now, ev, last>>

Q0 == [id |-> 0, v19 |-> FALSE, pver |-> 0, phone |-> <<>>, nibs |-> <<>>, ser |-> 1, plate |-> <<>>, did |-> <<>>,
       ver |-> "2013", code |-> <<>>, imei |-> <<>>, sw |-> <<>>, acc |-> 1, rep |-> <<>>]
CodeOf(p, l) == <<p, l>>
Wrong == <<"wrong">>
LocBody(n, acc) == Zeros(7) \o <<acc>> \o Zeros(3) \o <<n>> \o Zeros(16)

Requests ==
  {[Q0 EXCEPT !.id = Reg, !.phone = p, !.plate = l] : p \in Phones, l \in PlateSet}
  \cup {[Q0 EXCEPT !.id = Auth, !.phone = p, !.code = CodeOf(p, l)] : p \in Phones, l \in PlateSet}
  \cup {[Q0 EXCEPT !.id = Auth, !.phone = p, !.code = Wrong] : p \in Phones}
  \cup {[Q0 EXCEPT !.id = i, !.phone = p] : i \in {Heart, Dereg, TReply}, p \in Phones}
  \cup {[Q0 EXCEPT !.id = Loc, !.phone = p, !.acc = a, !.rep = LocBody(1, a)] : p \in Phones, a \in {0, 1}}
  \cup {[Q0 EXCEPT !.id = GReply, !.phone = p] : p \in Phones}       \* a platform id sent by a terminal
FragMsgs ==
  IF ~WithFrag THEN {} ELSE
  {[cls |-> "msg", id |-> Loc, len |-> 14, enc |-> 0, frag |-> TRUE, v19 |-> FALSE, ext |-> 0, pver |-> 0, nibs |-> <<>>,
    phone |-> p, ser |-> 1, total |-> 2, index |-> i, body |-> SubSeq(LocBody(2, 1), 14 * i - 13, 14 * i)]
   : p \in Phones, i \in {1, 2}}

None == [a |-> "none", c |-> "", q |-> Q0, rep |-> <<>>, close |-> FALSE, frag |-> 0, p |-> <<>>, to |-> ""]

Init == S = S0 /\ open = {} /\ chk = EmptyMap /\ now = 0 /\ ev = None /\ last = EmptyMap

\* a name used again is a new connection: registrations bound to the old one can no longer be reached
Open(c) == /\ c \notin open
           /\ open' = open \cup {c}
           /\ S' = [S EXCEPT !.dev = [p \in DOMAIN @ |-> [@[p] EXCEPT !.conn = IF @ = c THEN "-" ELSE @]]]
           /\ last' = [p \in DOMAIN last |-> [last[p] EXCEPT !.conn = IF @ = c THEN "-" ELSE @]]
           /\ ev' = [None EXCEPT !.a = "open", !.c = c]
           /\ UNCHANGED <<chk, now>>
PeerGone(c) == /\ c \in open
               /\ open' = open \ {c}
               /\ ev' = [None EXCEPT !.a = "gone", !.c = c]
               /\ UNCHANGED <<S, chk, now, last>>

Apply(c, q, h, frag) ==
  /\ S' = h.S
  /\ open' = IF h.close THEN open \ {c} ELSE open
  /\ chk' = [p \in DOMAIN h.S.dev |-> IF q.id = Reg /\ p = q.phone /\ p \notin DOMAIN S.dev THEN now + KeepMs ELSE chk[p]]
  /\ last' = [p \in DOMAIN h.S.dev |->
                IF p \notin DOMAIN S.dev THEN [conn |-> c, rep |-> <<>>]
                ELSE IF p # q.phone THEN last[p]
                ELSE [conn |-> IF q.id = Auth THEN c ELSE last[p].conn,
                      rep |-> IF q.id = Loc /\ frag # 1 THEN q.rep ELSE last[p].rep]]
  /\ ev' = [None EXCEPT !.a = "msg", !.c = c, !.q = q, !.rep = h.rep, !.close = h.close, !.frag = frag]
  /\ UNCHANGED now
Msg(c, q) == c \in open /\ Apply(c, q, Handle(S, c, q, now, now, CodeOf(q.phone, q.plate)), 0)
\* a fragment: what the whole amounts to is told by whether the assembly completes
Frag(c, m) ==
  LET a == Assemble(S.seg, m)
      whole == a.done
      q == [Q0 EXCEPT !.id = IF whole THEN Loc ELSE 0, !.phone = m.phone, !.rep = IF whole THEN a.body ELSE <<>>]
  IN  c \in open /\ Apply(c, q, HandleMsg(S, c, m, now, now, <<>>), IF whole THEN 2 ELSE 1)

Due(p) == chk[p] <= now
Check(p) ==
  LET d == S.dev[p] old == now - d.lo > KeepMs IN
  /\ Due(p)
  /\ IF d.status # Offline /\ old
     THEN /\ S' = SetDev(S, p, [d EXCEPT !.status = Offline])
          /\ chk' = [chk EXCEPT ![p] = now + KeepMs]
          /\ UNCHANGED <<open, last>>
     ELSE IF d.status = Offline /\ old
     THEN S' = DropDev(S, p) /\ chk' = Del(chk, p) /\ last' = Del(last, p) /\ open' = open \ {d.conn}
     ELSE chk' = [chk EXCEPT ![p] = now + KeepMs] /\ UNCHANGED <<S, open, last>>
  /\ ev' = [None EXCEPT !.a = "check", !.p = p]
  /\ UNCHANGED now
Tick == /\ \A p \in DOMAIN S.dev : ~Due(p)
        /\ now' = now + TickMs
        /\ ev' = [None EXCEPT !.a = "tick"]
        /\ UNCHANGED <<S, open, chk, last>>
Cmd(p) == /\ WithCmd
          /\ ev' = [None EXCEPT !.a = "cmd", !.p = p,
                                !.to = IF p \in DOMAIN S.dev /\ S.dev[p].conn \in open THEN S.dev[p].conn ELSE ""]
          /\ UNCHANGED <<S, open, chk, now, last>>

Next == \/ \E c \in Conns : Open(c) \/ PeerGone(c)
        \/ \E c \in Conns, q \in Requests : Msg(c, q)
        \/ \E c \in Conns, m \in FragMsgs : Frag(c, m)
        \/ \E p \in DOMAIN S.dev : Check(p)
        \/ Tick
        \/ \E p \in Phones : Cmd(p)
Spec == Init /\ [][Next]_vars

\* states differ only in ages; older than 4 periods is all the same (and never reached, see Bounds)
Age(t) == Min2(now - t, 4 * KeepMs)
View == <<[p \in DOMAIN S.dev |-> [S.dev[p] EXCEPT !.lo = Age(@), !.hi = 0]], S.geo, S.seg, open,
          [p \in DOMAIN chk |-> chk[p] - now], last>>

------------------------------------------------------------------------------
(* What must hold *)
TypeOK == DOMAIN chk = DOMAIN S.dev /\ DOMAIN last = DOMAIN S.dev
Unique == \A p, r \in DOMAIN S.dev : p # r => S.dev[p].plate # S.dev[r].plate                      \* C06
GeoOfRegistered == DOMAIN S.geo \subseteq DOMAIN S.dev                                              \* C08
GeoLatest == \A p \in DOMAIN S.dev : (IF p \in DOMAIN S.geo THEN S.geo[p] ELSE <<>>) = last[p].rep   \* C12
Route == \A p \in DOMAIN S.dev : S.dev[p].conn = last[p].conn                                       \* C15
Bounds == \A p \in DOMAIN S.dev : LET d == S.dev[p] IN                                               \* C11
            /\ d.status # Offline => now - d.lo <= 2 * KeepMs
            /\ now - d.lo <= (IF d.z = "yes" THEN 2 ELSE 3) * KeepMs

Is(a, id) == ev'.a = "msg" /\ ev'.q.id = id
Ph == ev'.q.phone
Others(p) == \A r \in DOMAIN S.dev \cup DOMAIN S'.dev : r # p =>
               /\ r \in DOMAIN S.dev /\ r \in DOMAIN S'.dev /\ S.dev[r] = S'.dev[r]
               /\ Get(S.geo, r, <<>>) = Get(S'.geo, r, <<>>)
OneTerminal == [][ev'.a = "msg" => Others(Ph)]_vars                                                 \* C05 C07 C08
\* C05: which requests are answered, and with what
Answered == [][ev'.a = "msg" /\ ev'.frag # 1 =>
                 LET q == ev'.q
                     known == Ph \in DOMAIN S.dev
                     want == CASE q.id = Reg -> {RReply} [] q.id \in {Heart, Dereg, Auth, Loc} /\ known -> {GReply} [] OTHER -> {}
                 IN  /\ {ev'.rep[i].k : i \in DOMAIN ev'.rep} = want
                     /\ Len(ev'.rep) <= 1
                     /\ \A i \in DOMAIN ev'.rep : ev'.rep[i].ser = q.ser /\ ev'.rep[i].id = q.id /\ ev'.rep[i].phone = q.phone]_vars
\* C06
RegExact == [][Is("msg", Reg) => LET q == ev'.q
                                     free == q.phone \notin DOMAIN S.dev /\ q.plate \notin Plates(S)
                                 IN  /\ free <=> ev'.rep[1].res = 0
                                     /\ ~free => S' = S
                                     /\ free => q.phone \in DOMAIN S'.dev /\ S'.dev[q.phone].status = Offline
                                                /\ q.phone \notin DOMAIN S'.geo]_vars
\* C07
OnlineOnlyByCode == [][\A p \in DOMAIN S'.dev :
                         S'.dev[p].status = Online /\ (p \notin DOMAIN S.dev \/ S.dev[p].status # Online) =>
                           Is("msg", Auth) /\ Ph = p /\ ev'.q.code = S.dev[p].code /\ ev'.rep[1].res = 0]_vars
WrongCodeRevokes == [][Is("msg", Auth) /\ Ph \in DOMAIN S.dev /\ ev'.q.code # S.dev[Ph].code =>
                         Ph \notin DOMAIN S'.dev /\ ev'.rep[1].res # 0]_vars
StatusMoves == [][\A p \in DOMAIN S.dev \cap DOMAIN S'.dev : S'.dev[p].status # S.dev[p].status =>
                    \/ S'.dev[p].status = Online /\ Is("msg", Auth)
                    \/ S'.dev[p].status = Sleeping /\ Is("msg", Loc) /\ Ph = p
                    \/ S'.dev[p].status = Offline /\ ev'.a = "check" /\ MayOffline(S.dev[p], now)]_vars
\* C08 C10
RemovedBy == [][\A p \in DOMAIN S.dev \ DOMAIN S'.dev :
                  \/ Is("msg", Dereg) /\ Ph = p
                  \/ Is("msg", Auth) /\ Ph = p /\ ev'.q.code # S.dev[p].code
                  \/ ev'.a = "check" /\ ev'.p = p /\ MayRemove(S.dev[p], now)]_vars
CreatedBy == [][\A p \in DOMAIN S'.dev \ DOMAIN S.dev : Is("msg", Reg) /\ Ph = p /\ p \notin DOMAIN S'.geo]_vars
\* C09
CutOffIff == [][ev'.a = "msg" => (ev'.close <=> (Ph \notin DOMAIN S.dev /\ (ev'.q.id \in {Heart, Dereg, Auth, Loc} \/ ev'.frag = 1)))
                                 /\ (ev'.close => S'.dev = S.dev /\ S'.geo = S.geo /\ ev'.rep = <<>> /\ open' = open \ {ev'.c})]_vars
\* C10: connections are closed by the server only for a cut-off or an expiry
ClosedBy == [][\A c \in open \ open' : \/ ev'.a = "gone"
                                       \/ ev'.a = "msg" /\ ev'.close /\ ev'.c = c
                                       \/ ev'.a = "check" /\ ev'.p \notin DOMAIN S'.dev /\ S.dev[ev'.p].conn = c]_vars
\* C11: expiry closes the terminal's connection
ExpiryCloses == [][\A p \in DOMAIN S.dev \ DOMAIN S'.dev : ev'.a = "check" => S.dev[p].conn \notin open' /\ p \notin DOMAIN S'.geo]_vars
\* C14: fragments reach the platform only as a whole
FragWhole == [][ev'.a = "msg" /\ ev'.frag = 1 => S'.dev = S.dev /\ S'.geo = S.geo]_vars
FragDone  == [][ev'.a = "msg" /\ ev'.frag = 2 /\ Ph \in DOMAIN S.dev => S'.geo[Ph] = LocBody(2, 1)]_vars
\* C08 C14: what a registration assembles was sent since it began
FragOwned == \A k \in DOMAIN S.seg : k[1] \in DOMAIN S.dev
FragFresh == [][\A p \in DOMAIN S'.dev \ DOMAIN S.dev : \A k \in DOMAIN S'.seg : k[1] # p]_vars
\* C15
CmdTo == [][ev'.a = "cmd" => ev'.to = (IF ev'.p \in DOMAIN S.dev /\ last[ev'.p].conn \in open THEN last[ev'.p].conn ELSE "")]_vars
=============================================================================
