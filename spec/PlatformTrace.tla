--------------------------- MODULE PlatformTrace ---------------------------
(* Validation of recorded executions of the real server.  Each trace is a   *)
(* list of steps (what the outside did, what it saw); the specification     *)
(* says what that step may lead to.  The state is the specification's; what *)
(* is observable is taken over from the observation after each step, so one *)
(* deviation is reported where it happens and does not cascade.             *)
EXTENDS Params, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Prop   == IOEnv.VERIF_PROP

VARIABLES ti, si, S, cs, bad,
          an      \* what the current step amounts to, once worked out (<<>>: not yet)
vars == <<ti, si, S, cs, bad, an>>

------------------------------------------------------------------------------
(* helpers over the JSON arrays *)
ToMap(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k][2]]
Elems(s) == {s[i] : i \in DOMAIN s}
DevAt(st, p) == st.devs[CHOOSE i \in DOMAIN st.devs : st.devs[i].phone = p]
Listed(st) == {st.devs[i].phone : i \in DOMAIN st.devs}

NewConn(addr) == [open |-> TRUE, fr |-> Idle, addr |-> addr, ps |-> -1, skip |-> 0]

(* Frames the server wrote to connection c in this step, parsed *)
Wrote(st, c) == LET o == SelectSeq(st.out, LAMBDA x : x[1] = c)
                IN  IF o = <<>> THEN <<>> ELSE o[1][2]
Cmds == {PSet, PQuery}

------------------------------------------------------------------------------
(* The messages of one connection's bytes, handled in order.                *)
(* acc: S, exp (expected replies), close, wild, pause                       *)
RECURSIVE HandleAll(_, _, _, _, _, _, _, _)
HandleAll(acc, c, ms, k, obs, lo, hi, n) ==
  IF k > Len(ms) \/ acc.close \/ acc.wild THEN acc
  ELSE LET code == IF n + 1 <= Len(obs) THEN ReplyFields(obs[n + 1]).code ELSE <<>>
           h == HandleMsg(acc.S, c, ms[k], lo, hi, code)
       IN  HandleAll([S |-> TLCEval(h.S), exp |-> acc.exp \o h.rep, close |-> h.close, wild |-> h.wild, pause |-> acc.pause \/ h.pause],
                     c, ms, k + 1, obs, lo, hi, n + Len(h.rep))

------------------------------------------------------------------------------
(* Comparing an expected reply with a written frame *)
SameF(f, e, o) ==
  LET r == ReplyFields(o) IN
  CASE f = "k"     -> r.k = e.k
    [] f = "ser"   -> r.ser = e.ser
    [] f = "id"    -> r.id = e.id
    [] f = "res"   -> r.res = e.res
    [] f = "phone" -> o.phone = e.phone
    [] f = "v19"   -> o.v19 = e.v19 /\ (e.v19 => o.pver = e.pver)
ReplyIssues(exp, obs, F) ==
  (IF Len(exp) # Len(obs) THEN {<<"reply-count", Len(exp), Len(obs)>>} ELSE {})
  \cup {<<"reply-field", f, i, exp[i], ReplyFields(obs[i])>> :
          <<f, i>> \in {x \in F \X (1 .. Min2(Len(exp), Len(obs))) : ~SameF(x[1], exp[x[2]], obs[x[2]])}}

(* A location answer against a report *)
TimeOk(t) == LET n == Nibbles(t) d(i) == n[i] * 10 + n[i + 1] IN
             /\ \A i \in 1 .. 12 : n[i] <= 9
             /\ d(1) <= 68 /\ d(3) \in 1 .. 12 /\ d(5) \in 1 .. 28 /\ d(7) <= 23 /\ d(9) <= 59 /\ d(11) <= 59
GeoValues(g, body) == LET f == LocFields(body) IN
  /\ g.lat = f.lat /\ g.lon = f.lon /\ g.alt = f.alt /\ g.spd = f.spd /\ g.dir = f.dir
  /\ TimeOk(f.time) => g.time = f.time
GeoFlags(g, body) == g.flags = LocFlags(body)

GeoUnknown == <<-1>>   \* after a concurrent step

(* What an HTTP request should be answered with in state S *)
HttpKnown(S1, h) == h.phone \in DOMAIN S1.dev
Reaches(S1, cs1, h) == /\ h.valid
                       /\ HttpKnown(S1, h)
                       /\ S1.dev[h.phone].conn \in DOMAIN cs1
                       /\ cs1[S1.dev[h.phone].conn].open
\* how many command frames a request that reaches its terminal puts on the wire
CmdFrames(h) == IF h.m = "ps" THEN (IF Sendable(h.items) THEN 1 ELSE 0) ELSE 1

PadNibs(p, v19) == LET w == IF v19 THEN 20 ELSE 12 IN [i \in 1 .. w - Len(p) |-> 15] \o p

(* C03: the bytes written to one connection are well-formed frames *)
FrameIssues(st) ==
  {<<"malformed-output", st.out[i][1]>> : i \in {j \in DOMAIN st.out : ~WholeFrames(st.out[j][2])}}
  \cup UNION {LET ps == ParseAll(st.out[i][2]) IN
              {<<"malformed-frame", st.out[i][1], ps[k]>> :
                 k \in {k \in DOMAIN ps : ~(/\ ps[k].cls = "msg" /\ ps[k].len = Len(ps[k].body) /\ ~ps[k].frag
                                            /\ ps[k].nibs = PadNibs(ps[k].phone, ps[k].v19))}}
              : i \in DOMAIN st.out}

------------------------------------------------------------------------------
(* The analysis of one sequential step *)
OpenAll(cs1, st) == LET f(a, x) == Put(a, x[1], NewConn(x[2])) IN FoldLeft(f, cs1, st.opens)

Analyse(st, S1, cs0) ==
  LET cs1  == TLCEval(OpenAll(cs0, st))
      hasIn == st.ins # <<>> /\ st.ins[1][1] \in DOMAIN cs1 /\ cs1[st.ins[1][1]].open
      c    == IF hasIn THEN st.ins[1][1] ELSE ""
      fed  == IF hasIn THEN Feed(cs1[c].fr, st.ins[1][2]) ELSE [st |-> Idle, fr |-> <<>>]
      ms   == TLCEval([k \in DOMAIN fed.fr |-> Parse(fed.fr[k])])
      obs  == IF hasIn THEN TLCEval(ParseAll(Wrote(st, c))) ELSE <<>>
      a    == HandleAll([S |-> S1, exp |-> <<>>, close |-> FALSE, wild |-> FALSE, pause |-> FALSE], c, ms, 1, obs, st.t0, st.t, 0)
      ended == {x[1] : x \in {y \in Elems(st.ends) : y[1] \in DOMAIN cs1}}
      phones == {ms[k].phone : k \in {k \in DOMAIN ms : ms[k].cls = "msg"}}
      h    == IF st.http = <<>> THEN [m |-> "none", phone |-> <<>>, valid |-> FALSE] ELSE st.http[1]
  IN  [S |-> TLCEval(a.S), exp |-> TLCEval(a.exp), obs |-> obs, c |-> c, ms |-> ms, wild |-> a.wild,
       mclosed |-> IF a.close THEN {c} ELSE {}, ended |-> ended, phones |-> phones,
       blur |-> {p \in phones \cap DOMAIN S1.dev : st.late /\ (MayOffline(S1.dev[p], st.t) \/ MayRemove(S1.dev[p], st.t))},
       h |-> h,
       cs |-> IF hasIn THEN [cs1 EXCEPT ![c].fr = fed.st, ![c].open = @ /\ ~a.close] ELSE cs1]

(* Terminals that time may have removed by the end of the step *)
Gone(A, st)    == DOMAIN A.S.dev \ Listed(st)
MayGo(A, st)   == {p \in DOMAIN A.S.dev : MayRemove(A.S.dev[p], st.t)}
MustGo(A, st)  == {p \in DOMAIN A.S.dev : MustRemove(A.S.dev[p], st.t)}
Expired(A, st) == Gone(A, st) \cap MayGo(A, st)
StatusOk(d, s, t) == (s = d.status \/ (s = Offline /\ MayOffline(d, t))) /\ ~(MustOffline(d, t) /\ s # Offline)
\* terminals nothing is said about in this step
Loose(A) == A.blur \cup (IF A.wild THEN A.phones ELSE {})
LooseConn(A) == A.wild \/ A.blur # {}

(* connections the server closed without reason *)
ExpectedClosed(A, st) ==
  A.mclosed \cup A.ended \cup {A.S.dev[p].conn : p \in Expired(A, st)} \cup (IF LooseConn(A) THEN {A.c} ELSE {})
\* (the server may take its time to let go of a connection that had already ended)
StrayClosed(A, st) == {c \in Elems(st.closed) \ ExpectedClosed(A, st) : c \in DOMAIN A.cs => A.cs[c].open}
MissedClose(A, st) == IF LooseConn(A) THEN {} ELSE A.mclosed \ Elems(st.closed)

(* output on connections that should have received nothing *)
CmdConn(A, S1) == IF A.h.m \in {"pq", "ps"} /\ Reaches(S1, A.cs, A.h) THEN {S1.dev[A.h.phone].conn} ELSE {}
StrayOut(A, S1, st) == IF A.h.m = "any" THEN {}        \* an arbitrary HTTP request: may be a valid command
                       ELSE {st.out[i][1] : i \in DOMAIN st.out} \ ({A.c} \cup CmdConn(A, S1))

(* which terminals the device list shows, apart from expiry *)
ListIssues(A, st) ==
  IF ~st.snap THEN {} ELSE
  {<<"not-listed", p>> : p \in (Gone(A, st) \ MayGo(A, st)) \ Loose(A)}
  \cup {<<"listed-but-not-registered", p>> : p \in (Listed(st) \ DOMAIN A.S.dev) \ Loose(A)}
  \cup (IF Len(st.devs) # Cardinality(Listed(st)) THEN {<<"listed-twice", Len(st.devs)>>} ELSE {})
Both(A, st) == IF st.snap THEN (DOMAIN A.S.dev \cap Listed(st)) \ Loose(A) ELSE {}
StatusIssues(A, st) ==
  {<<"status", p, A.S.dev[p].status, DevAt(st, p).status>> :
     p \in {p \in Both(A, st) : ~StatusOk(A.S.dev[p], DevAt(st, p).status, st.t)}}
ContactIssues(A, st) ==
  {<<"contact-time", p, A.S.dev[p].lo, A.S.dev[p].hi, DevAt(st, p).last>> :
     p \in {p \in Both(A, st) : DevAt(st, p).last < A.S.dev[p].lo \/ DevAt(st, p).last > A.S.dev[p].hi}}
IdentityIssues(A, st) ==
  UNION {LET d == A.S.dev[p] o == DevAt(st, p) IN
         (IF o.plate # d.plate THEN {<<"plate", p, d.plate, o.plate>>} ELSE {})
         \cup (IF o.did # d.did THEN {<<"terminal-id", p, d.did, o.did>>} ELSE {})
         \cup (IF o.ver # d.ver \/ o.pver # d.pver THEN {<<"version", p, d.ver, d.pver, o.ver, o.pver>>} ELSE {})
         \cup (IF o.imei # d.imei \/ o.sw # d.sw THEN {<<"imei-or-software", p, d.imei, d.sw, o.imei, o.sw>>} ELSE {})
         : p \in Both(A, st)}
AddrIssues(A, st) ==
  {<<"session", p>> : p \in {p \in Both(A, st) : LET c == A.S.dev[p].conn IN
                                c \in DOMAIN A.cs /\ A.cs[c].addr # DevAt(st, p).addr}}
PlateIssues(st) == IF st.snap /\ Cardinality({st.devs[i].plate : i \in DOMAIN st.devs}) # Len(st.devs)
                   THEN {<<"plate-twice">>} ELSE {}

(* the location query *)
GeoIssues(A, S1, st, what) ==
  IF A.h.m # "geo" THEN {} ELSE
  LET h == A.h IN
  IF ~HttpKnown(S1, h) THEN (IF "none" \in what /\ (h.code < 400 \/ h.has) THEN {<<"geo-of-unregistered", h.phone>>} ELSE {})
  ELSE IF h.phone \notin DOMAIN S1.geo THEN (IF "none" \in what /\ h.has THEN {<<"geo-without-report", h.phone>>} ELSE {})
  ELSE IF S1.geo[h.phone] = GeoUnknown THEN {}
  ELSE IF ~h.has THEN (IF "some" \in what THEN {<<"geo-missing", h.phone, h.code>>} ELSE {})
  ELSE (IF "some" \in what /\ ~GeoValues(h.geo, S1.geo[h.phone]) THEN {<<"geo-values", h.phone, h.geo, LocFields(S1.geo[h.phone])>>} ELSE {})
       \cup (IF "flags" \in what /\ ~GeoFlags(h.geo, S1.geo[h.phone])
             THEN {<<"geo-flags", h.phone, h.geo.flags, LocFlags(S1.geo[h.phone])>>} ELSE {})

(* HTTP commands *)
CmdIssues(A, S1, st) ==
  IF A.h.m \notin {"pq", "ps"} THEN {} ELSE
  LET h == A.h
      reach == Reaches(S1, A.cs, h) /\ (h.m = "ps" => ValidRequest(h.items))
      k == IF h.m = "pq" THEN PQuery ELSE PSet
  IN  IF ~reach THEN (IF h.code < 400 THEN {<<"command-accepted", h.phone, h.code>>} ELSE {})
                     \cup (IF st.out # <<>> THEN {<<"command-sent-to", {st.out[i][1] : i \in DOMAIN st.out}>>} ELSE {})
      ELSE LET c == S1.dev[h.phone].conn
               o == ParseAll(Wrote(st, c))
           IN  (IF h.code # 200 THEN {<<"command-refused", h.phone, h.code>>} ELSE {})
               \cup (IF Len(o) # CmdFrames(h) THEN {<<"command-count", c, Len(o)>>} ELSE {})
               \cup (IF \E i \in DOMAIN o : o[i].id # k \/ o[i].phone # h.phone THEN {<<"command-wrong", c, o[1].id, o[1].phone>>} ELSE {})
               \cup {<<"command-elsewhere", x>> : x \in {st.out[i][1] : i \in DOMAIN st.out} \ {c}}
SetIssues(A, S1, st) ==
  IF A.h.m # "ps" \/ ~Reaches(S1, A.cs, A.h) THEN {} ELSE
  LET h == A.h
      o == ParseAll(Wrote(st, S1.dev[h.phone].conn))
      ok == ValidRequest(h.items)
  IN  IF ~ok \/ ~Sendable(h.items)
      THEN (IF st.out # <<>> THEN {<<"unsendable-list-sent">>} ELSE {})
      ELSE IF Len(o) # 1 THEN {<<"list-not-sent-once", Len(o), h.code>>}
      ELSE IF o[1].body # SetBody(h.items) THEN {<<"list-wrong", Items(From(o[1].body, 2)), ExpectedItems(h.items), o[1].body[1]>>}
      ELSE {}
CmdHeaderIssues(A, S1, st) ==
  IF A.h.m \notin {"pq", "ps"} \/ ~Reaches(S1, A.cs, A.h) THEN {} ELSE
  LET d == S1.dev[A.h.phone]
      o == ParseAll(Wrote(st, d.conn))
  IN  {<<"command-header", o[i]>> : i \in {i \in DOMAIN o : o[i].v19 # d.v19 \/ o[i].phone # A.h.phone
                                                            \/ (d.v19 /\ o[i].pver # d.pver)}}
OversizeIssues(A, S1, st) ==
  IF A.h.m = "ps" /\ Reaches(S1, A.cs, A.h) /\ ~Sendable(A.h.items) /\ st.out # <<>> THEN {<<"oversize-sent">>} ELSE {}

(* serial numbers of frames the platform originates on a connection *)
OrgSers(st, c, A) ==
  LET o == ParseAll(Wrote(st, c))
  IN  IF c = A.c
      THEN LET idx == SelectSeq([i \in 1 .. Min2(Len(A.exp), Len(o)) |-> i], LAMBDA i : A.exp[i].org)
           IN  [i \in DOMAIN idx |-> o[idx[i]].ser]
      ELSE LET q == SelectSeq(o, LAMBDA m : m.id \in Cmds) IN [i \in DOMAIN q |-> q[i].ser]
\* consecutive, with at most `skip` numbers used up by refused commands before the first
Consecutive(ps, skip, s) ==
  s = <<>> \/ ( /\ ps >= 0 => (s[1] - ps - 1) % 65536 <= skip
                /\ \A i \in 1 .. Len(s) - 1 : s[i + 1] = (s[i] + 1) % 65536 )
\* many frames at once, recorded by their serial numbers only
Bulk(st, c) == LET o == SelectSeq(st.bulk, LAMBDA x : x[1] = c) IN IF o = <<>> THEN <<>> ELSE o[1][2]
SerialIssues(A, st, cs0) ==
  {<<"serials-bulk", c>> : c \in {c \in DOMAIN A.cs : ~Consecutive(A.cs[c].ps, A.cs[c].skip, Bulk(st, c))}} \cup
  {<<"serials", c, A.cs[c].ps, OrgSers(st, c, A)>> :
     c \in {c \in DOMAIN A.cs : ~Consecutive(A.cs[c].ps, A.cs[c].skip, OrgSers(st, c, A))}}
NextSer(st, A, S1, c) ==
  LET s == IF Bulk(st, c) # <<>> THEN Bulk(st, c) ELSE OrgSers(st, c, A)
      refused == A.h.m \in {"pq", "ps"} /\ c \in CmdConn(A, S1) /\ s = <<>>
  IN  [A.cs[c] EXCEPT !.ps = IF s = <<>> THEN @ ELSE s[Len(s)],
                      !.skip = IF s = <<>> THEN (IF refused THEN @ + 1 ELSE @) ELSE 0]

------------------------------------------------------------------------------
(* Concurrent steps: is there an order of the requests that explains what   *)
(* was observed?  Requests of one connection keep their order.              *)
DevMatches(d, o, cs1) ==
  /\ o.plate = d.plate /\ o.did = d.did /\ o.ver = d.ver /\ o.pver = d.pver /\ o.imei = d.imei /\ o.sw = d.sw
  /\ o.status = d.status
  /\ o.last = -2 \/ (o.last >= d.lo /\ o.last <= d.hi)      \* -2: not shown
  /\ d.conn \in DOMAIN cs1 => cs1[d.conn].addr = o.addr
ListMatches(S1, devs, cs1) ==
  /\ Len(devs) = Cardinality(DOMAIN S1.dev)
  /\ {devs[i].phone : i \in DOMAIN devs} = DOMAIN S1.dev
  /\ \A i \in DOMAIN devs : DevMatches(S1.dev[devs[i].phone], devs[i], cs1)
HttpMatches(S1, cs1, h, soft) ==
  CASE h.m = "list" -> h.code = 200 /\ ListMatches(S1, h.devs, cs1)
    [] h.m = "geo"  -> IF ~HttpKnown(S1, h) THEN h.code >= 400
                       ELSE IF h.phone \notin DOMAIN S1.geo THEN h.code = 200 /\ ~h.has
                            /\ (h.dev # <<>> => DevMatches(S1.dev[h.phone], h.dev[1], cs1))
                       ELSE IF S1.geo[h.phone] = GeoUnknown THEN h.code = 200
                       ELSE h.has /\ GeoValues(h.geo, S1.geo[h.phone]) /\ GeoFlags(h.geo, S1.geo[h.phone])
                            /\ (h.dev # <<>> => DevMatches(S1.dev[h.phone], h.dev[1], cs1))
    [] h.m \in {"pq", "ps"} -> IF ~HttpKnown(S1, h) \/ ~h.valid THEN h.code >= 400
                               ELSE IF S1.dev[h.phone].conn \in soft THEN TRUE
                               ELSE IF Reaches(S1, cs1, h) THEN h.code = 200 ELSE h.code >= 400
    [] OTHER -> TRUE
NotCmd(ms) == SelectSeq(ms, LAMBDA m : m.id \notin Cmds)
IsCmd(ms)  == SelectSeq(ms, LAMBDA m : m.id \in Cmds)

(* P: the fixed facts of the step.  A point X of the search: S: the state;  *)
(* pos: next message per connection; rk: replies consumed per connection;   *)
(* hd: HTTP requests done; cut: closed connections; dy: connections an      *)
(* expiry is closing (a message just read from one may still be handled,    *)
(* its reply may be lost); cm: command frames due per connection            *)
Todo(P, X) == {c \in DOMAIN P.ms : c \notin X.cut /\ X.pos[c] <= Len(P.ms[c])}
Explained(P, X) ==
  /\ Todo(P, X) \subseteq X.dy /\ X.hd = DOMAIN P.http
  /\ \A c \in DOMAIN P.ms : X.rk[c] = Len(P.rep[c])
  /\ \A c \in DOMAIN P.cs : c \in P.soft \/ c \in X.cut \/ c \in X.dy \/ P.ncmd[c] = Get(X.cm, c, 0)
  /\ (X.cut \cup X.dy) \subseteq P.closed
  /\ P.closed \subseteq (X.cut \cup X.dy \cup P.soft)
  /\ P.final => ListMatches(X.S, P.devs, P.cs)
  /\ \A i \in DOMAIN P.fin : HttpMatches(X.S, P.cs, P.fin[i], {})

\* the next message of a connection is handled
ByMsg(P, X, c) ==
  LET obs  == P.rep[c]
      code == IF X.rk[c] + 1 <= Len(obs) THEN ReplyFields(obs[X.rk[c] + 1]).code ELSE <<>>
      h    == TLCEval(HandleMsg(X.S, c, P.ms[c][X.pos[c]], P.t0, P.t, code))
      fits(n) == /\ X.rk[c] + n <= Len(obs)
                 /\ n = 1 => \A f \in {"k", "ser", "id", "res", "phone", "v19"} : SameF(f, h.rep[1], obs[X.rk[c] + 1])
  IN  {[X EXCEPT !.S = h.S, !.pos[c] = @ + 1, !.rk[c] = @ + n, !.cut = IF h.close THEN @ \cup {c} ELSE @] :
         n \in {n \in (IF c \in X.dy THEN {0, Len(h.rep)} ELSE {Len(h.rep)}) : fits(n)}}
ByHttp(P, X, i) ==
  LET h == P.http[i] IN
  IF ~HttpMatches(X.S, [c \in DOMAIN P.cs |-> [P.cs[c] EXCEPT !.open = @ /\ c \notin X.cut]], h, P.soft \cup X.cut \cup X.dy) THEN {}
  ELSE {[X EXCEPT !.hd = @ \cup {i},
                  !.cm = IF h.m \in {"pq", "ps"} /\ HttpKnown(X.S, h) /\ h.code = 200
                         THEN LET c == X.S.dev[h.phone].conn IN Put(@, c, Get(@, c, 0) + CmdFrames(h))
                         ELSE @]}
\* an expiry, if its time may have come
ByOffline(P, X, p) == {[X EXCEPT !.S = SetDev(X.S, p, [X.S.dev[p] EXCEPT !.status = Offline])]}
ByRemoval(P, X, p) ==
  LET c == X.S.dev[p].conn IN
  {[X EXCEPT !.S = DropDev(X.S, p), !.dy = IF c \in DOMAIN P.cs /\ P.cs[c].open THEN @ \cup {c} ELSE @]}
\* what may come next: <<kind, which>>
Moves(P, X) ==
  LET todo  == Todo(P, X)
      htodo == DOMAIN P.http \ X.hd
      \* a message that concerns nothing else that is still to come may as well be handled first
      calm  == {c \in todo : /\ P.alone[c][X.pos[c]]
                              /\ \A i \in htodo : P.http[i].m = "geo" /\ P.http[i].phone # P.ms[c][X.pos[c]].phone}
  IN  IF calm # {} THEN {<<"msg", CHOOSE c \in calm : TRUE>>}
      ELSE {<<"msg", c>> : c \in todo} \cup {<<"http", i>> : i \in htodo}
           \cup {<<"offline", p>> : p \in {p \in DOMAIN X.S.dev : MayOffline(X.S.dev[p], P.t)}}
           \cup {<<"removal", p>> : p \in {p \in DOMAIN X.S.dev : X.S.dev[p].status = Offline /\ MayRemove(X.S.dev[p], P.t)}}
After(P, X, m) == CASE m[1] = "msg" -> ByMsg(P, X, m[2]) [] m[1] = "http" -> ByHttp(P, X, m[2])
                    [] m[1] = "offline" -> ByOffline(P, X, m[2]) [] OTHER -> ByRemoval(P, X, m[2])

\* depth first, as an explanation is found at once where there is one; TLC register 9 counts the points visited
Limit == 1000
RECURSIVE Deep(_, _)
Deep(P, X) == /\ TLCGet(9) < Limit /\ TLCSet(9, TLCGet(9) + 1)
              /\ \/ Explained(P, X)
                 \/ \E kind \in {"msg", "http", "offline", "removal"} : \E m \in {m \in Moves(P, X) : m[1] = kind} :
                       \E Y \in After(P, X, m) : Deep(P, Y)
\* breadth first, no point twice, where there is none or it is hard to find
RECURSIVE Broad(_, _)
Broad(P, layer) == /\ layer # {}
                   /\ \/ \E X \in layer : Explained(P, X)
                      \/ Broad(P, TLCEval(UNION {UNION {After(P, X, m) : m \in Moves(P, X)} : X \in layer}))

\* per connection and message: no other connection speaks of its phone or (a registration) asks for its plate, nobody who may leave
\* has that plate, and no time is up
Alone(ms, S1, t) ==
  LET msgs(c) == {x \in Elems(ms[c]) : x.cls = "msg"}
      others(c) == UNION {msgs(d) : d \in DOMAIN ms \ {c}}
      calm == ~\E p \in DOMAIN S1.dev : MayOffline(S1.dev[p], t) \/ MayRemove(S1.dev[p], t)
      plate(m) == IF m.id = Reg /\ ~m.frag /\ Sound(m) THEN {RegFields(m).plate} ELSE {}
      ok(c, m) == /\ m.cls # "msg" \/ \A x \in others(c) : x.phone # m.phone
                  /\ (m.cls = "msg" /\ m.id = Reg) =>
                       /\ ~m.frag /\ Sound(m)
                       /\ RegFields(m).plate \notin Plates(S1)
                       /\ \A x \in others(c) : x.id = Reg => ~x.frag /\ plate(x) \cap plate(m) = {}
                  /\ (m.cls = "msg" /\ m.id \in {Dereg, Auth}) =>      \* a plate that becomes free
                       ~\E x \in others(c) : x.id = Reg /\ (x.frag \/ plate(x) \cap (Plates(S1) \cup UNION {plate(y) : y \in msgs(c)}) # {})
  IN  [c \in DOMAIN ms |-> [k \in DOMAIN ms[c] |-> calm /\ ok(c, ms[c][k])]]

ParFacts(st, S1, cs0) ==
  LET cs1 == TLCEval(OpenAll(cs0, st))
      live == {x \in {st.ins[i][1] : i \in DOMAIN st.ins} : cs1[x].open}
      inm == ToMap(st.ins)
      fed == TLCEval([c \in live |-> Feed(cs1[c].fr, inm[c])])
      ms  == TLCEval([c \in live |-> [k \in DOMAIN fed[c].fr |-> Parse(fed[c].fr[k])]])
      all == TLCEval([c \in DOMAIN cs1 |-> ParseAll(Wrote(st, c))])
  IN  [ms |-> ms, http |-> st.http, t0 |-> st.t0, t |-> st.t, cs |-> cs1,
       rep |-> TLCEval([c \in live |-> NotCmd(all[c])]), all |-> all,
       ncmd |-> TLCEval([c \in DOMAIN cs1 |-> Len(IsCmd(all[c]))]),
       soft |-> {x[1] : x \in Elems(st.ends)}, closed |-> Elems(st.closed),
       devs |-> st.devs, final |-> st.snap, fin |-> st.fin,
       fr |-> [c \in live |-> fed[c].st], alone |-> TLCEval(Alone(ms, S1, st.t))]
Linearizable(P, S1) ==
  LET X == [S |-> S1, pos |-> [c \in DOMAIN P.ms |-> 1], rk |-> [c \in DOMAIN P.ms |-> 0], hd |-> {}, cut |-> {}, dy |-> {}, cm |-> EmptyMap]
  IN  TLCSet(9, 0) /\ IF Deep(P, X) THEN TRUE ELSE TLCGet(9) >= Limit /\ Broad(P, {X})

\* platform-originated serials of a concurrent step: a block of consecutive numbers in any order
RECURSIVE CycRun(_, _, _)
CycRun(set, x, n) == IF n = 0 THEN TRUE ELSE x \in set /\ CycRun(set, (x + 1) % 65536, n - 1)
\* commands, and acknowledgements of fragments that do not complete a message (known by the serial number they answer)
FragSers(P, c) == IF c \notin DOMAIN P.ms THEN {} ELSE
  LET own(f) == {m.ser : m \in {x \in Elems(P.ms[c]) : x.cls = "msg" /\ (x.frag /\ x.index # x.total) = f}}
  IN  own(TRUE) \ own(FALSE)
ParSerials(P, c) == LET fs == FragSers(P, c)
                        q == SelectSeq(P.all[c], LAMBDA m : m.id \in Cmds \/ (m.id = GReply /\ ReplyFields(m).ser \in fs))
                    IN [i \in DOMAIN q |-> q[i].ser]
ParSerialIssues(P) ==
  {<<"serials", c, P.cs[c].ps, ParSerials(P, c)>> :
     c \in {c \in DOMAIN P.cs \ P.soft :
              LET s == ParSerials(P, c)
                  set == Elems(s)
              IN  s # <<>> /\ ~(/\ Cardinality(set) = Len(s)
                                /\ IF P.cs[c].ps >= 0 /\ P.cs[c].skip = 0
                                   THEN CycRun(set, (P.cs[c].ps + 1) % 65536, Len(s))
                                   ELSE \E x \in set : CycRun(set, x, Len(s)))}}

------------------------------------------------------------------------------
(* Per property: what in this step contradicts it *)
SeqIssues(A, st, S1, cs0) ==
  LET strict(F) == IF LooseConn(A) \/ A.c \in Elems(st.mute) THEN {} ELSE ReplyIssues(A.exp, A.obs, F)
      stray == {<<"output-on", x>> : x \in StrayOut(A, S1, st)}
      closed == {<<"closed", x>> : x \in StrayClosed(A, st)}
      http == IF \E i \in DOMAIN st.http : st.http[i].code = 0 THEN {<<"http-no-answer">>} ELSE {}
      geoAny == GeoIssues(A, S1, st, {"none", "some"})
      kinds == {"k", "ser"}
      quiet == A.exp = <<>>   \* only connections whose requests get no reply
  IN
  CASE Prop = "C01" -> strict(kinds) \cup ListIssues(A, st) \cup closed
    [] Prop = "C02" -> strict(kinds) \cup ListIssues(A, st) \cup StatusIssues(A, st) \cup ContactIssues(A, st) \cup closed \cup geoAny \cup stray
    [] Prop = "C03" -> FrameIssues(st) \cup strict({"phone", "v19"}) \cup CmdHeaderIssues(A, S1, st) \cup OversizeIssues(A, S1, st)
    [] Prop = "C04" -> IdentityIssues(A, st) \cup {x \in ListIssues(A, st) : x[1] # "listed-twice"}
    [] Prop = "C05" -> strict({"k", "ser", "id", "phone", "v19"}) \cup stray
    [] Prop = "C06" -> {x \in ListIssues(A, st) : TRUE} \cup PlateIssues(st)
                       \cup (IF LooseConn(A) THEN {} ELSE
                             {<<"registration-result", A.exp[i], ReplyFields(A.obs[i])>> :
                                i \in {i \in 1 .. Min2(Len(A.exp), Len(A.obs)) : A.exp[i].k = RReply /\ ~SameF("res", A.exp[i], A.obs[i])}})
    [] Prop = "C07" -> StatusIssues(A, st)
                       \cup (IF LooseConn(A) THEN {} ELSE
                             {<<"authentication-result", A.exp[i], ReplyFields(A.obs[i])>> :
                                i \in {i \in 1 .. Min2(Len(A.exp), Len(A.obs)) : A.exp[i].id = Auth /\ ~SameF("res", A.exp[i], A.obs[i])}})
                       \cup {x \in ListIssues(A, st) : \E k \in DOMAIN A.ms : A.ms[k].cls = "msg" /\ A.ms[k].id = Auth}
    [] Prop = "C08" -> ListIssues(A, st) \cup GeoIssues(A, S1, st, {"none"}) \cup StatusIssues(A, st)
                       \cup (IF LooseConn(A) THEN {} ELSE
                             {<<"registration-result", A.exp[i], ReplyFields(A.obs[i])>> :
                                i \in {i \in 1 .. Min2(Len(A.exp), Len(A.obs)) : A.exp[i].k = RReply /\ ~SameF("res", A.exp[i], A.obs[i])}})
    [] Prop = "C09" -> {<<"left-open", x>> : x \in MissedClose(A, st)} \cup closed \cup ListIssues(A, st)
                       \cup (IF quiet \/ A.mclosed # {} THEN strict({"k"}) ELSE {}) \cup GeoIssues(A, S1, st, {"none"})
    [] Prop = "C10" -> closed \cup ListIssues(A, st)
                       \cup {<<"status", p, A.S.dev[p].status, DevAt(st, p).status>> :
                               p \in {p \in Both(A, st) : A.S.dev[p].status # Offline /\ DevAt(st, p).status = Offline
                                                          /\ ~MayOffline(A.S.dev[p], st.t)}}
    [] Prop = "C11" -> (IF st.snap THEN {<<"not-removed", p>> : p \in MustGo(A, st) \cap Listed(st)}
                                        \cup {<<"removed-early", p>> : p \in (Gone(A, st) \ MayGo(A, st)) \ Loose(A)} ELSE {})
                       \cup StatusIssues(A, st)
                       \cup (IF st.snap THEN {<<"left-open", A.S.dev[p].conn>> :
                                 p \in {p \in Expired(A, st) : LET c == A.S.dev[p].conn IN
                                           c \in DOMAIN A.cs /\ A.cs[c].open /\ c \notin Elems(st.closed) /\ c \notin A.ended}} ELSE {})
                       \cup GeoIssues(A, S1, st, {"none"})
    [] Prop = "C12" -> geoAny
    [] Prop = "C13" -> GeoIssues(A, S1, st, {"flags"})
    [] Prop = "C14" -> strict({"k", "ser", "id", "res"}) \cup ListIssues(A, st) \cup StatusIssues(A, st) \cup geoAny \cup closed
                       \cup IdentityIssues(A, st)
    [] Prop = "C15" -> CmdIssues(A, S1, st) \cup stray
    [] Prop = "C16" -> SerialIssues(A, st, cs0)
    [] Prop = "C17" -> FrameIssues(st) \cup strict(kinds)
    [] Prop = "C18" -> stray \cup closed \cup ListIssues(A, st) \cup StatusIssues(A, st) \cup http
                       \cup {x \in IdentityIssues(A, st) : x[2] \notin A.phones}      \* the text of a hostile registration may be garbage
                       \cup strict({"k", "ser", "id", "phone"}) \cup geoAny
    [] Prop = "C19" -> SetIssues(A, S1, st)
    [] Prop = "C21" -> ListIssues(A, st) \cup StatusIssues(A, st) \cup IdentityIssues(A, st) \cup AddrIssues(A, st) \cup geoAny \cup http
    [] Prop = "C24" -> strict({"k", "ser", "id", "phone", "v19", "res"}) \cup stray \cup closed \cup http \cup geoAny
                       \cup {<<"left-open", x>> : x \in MissedClose(A, st)} \cup ListIssues(A, st) \cup PlateIssues(st)
                       \cup StatusIssues(A, st) \cup ContactIssues(A, st) \cup IdentityIssues(A, st) \cup AddrIssues(A, st)
                       \cup GeoIssues(A, S1, st, {"flags"}) \cup FrameIssues(st) \cup CmdHeaderIssues(A, S1, st) \cup OversizeIssues(A, S1, st)
                       \cup CmdIssues(A, S1, st) \cup SetIssues(A, S1, st) \cup SerialIssues(A, st, cs0)
    [] OTHER -> Assert(FALSE, "unknown property")

\* every command frame written is one that was asked for, with its own content (each request at most once)
CmdContent(P, st) ==
  LET asked == [i \in {i \in DOMAIN P.http : P.http[i].m \in {"pq", "ps"} /\ P.http[i].code = 200} |->
                  LET h == P.http[i] IN IF h.m = "pq" THEN <<PQuery, h.phone, <<>>>> ELSE <<PSet, h.phone, SetBody(h.items)>>]
      wrote == FoldLeft(LAMBDA a, x : a \o IsCmd(ParseAll(x[2])), <<>>, st.out)
      key(m) == <<m.id, m.phone, m.body>>
  IN  {<<"command-content", key(wrote[i])>> :
         i \in {i \in DOMAIN wrote : Cardinality({j \in DOMAIN wrote : key(wrote[j]) = key(wrote[i])})
                                    > Cardinality({j \in DOMAIN asked : asked[j] = key(wrote[i])})}}
\* a connection that stays open has the replies to its requests, in order, each with its serial number
NeedsReply(m) == m.cls = "msg" /\ (m.id \in {Reg, Auth, Heart, Dereg, Loc} \/ (m.frag /\ m.index # m.total))
ParReplies(P) ==
  {<<"replies", c>> : c \in {c \in DOMAIN P.ms \ (P.soft \cup P.closed) :
     LET q == SelectSeq(P.ms[c], NeedsReply) IN
     [i \in DOMAIN P.rep[c] |-> ReplyFields(P.rep[c][i]).ser] # [i \in DOMAIN q |-> q[i].ser]}}
\* what is listed is what some registration, and some authentication, said (S1: before the step)
ParIdentity(P, st, S1) ==
  LET ms(p, id) == {x \in UNION {Elems(P.ms[c]) : c \in DOMAIN P.ms} : x.cls = "msg" /\ ~x.frag /\ x.id = id /\ x.phone = p /\ Sound(x)}
      pieces == {x.phone : x \in {x \in UNION {Elems(P.ms[c]) : c \in DOMAIN P.ms} : x.cls = "msg" /\ x.frag}}
      regs(p) == {LET r == RegFields(x) IN <<r.plate, r.did, r.ver, x.pver>> : x \in ms(p, Reg)}
                 \cup (IF p \in DOMAIN S1.dev THEN LET d == S1.dev[p] IN {<<d.plate, d.did, d.ver, d.pver>>} ELSE {})
      auths(p) == {LET r == AuthFields(x) IN <<r.imei, r.sw>> : x \in ms(p, Auth)}
                  \cup (IF p \in DOMAIN S1.dev THEN LET d == S1.dev[p] IN {<<d.imei, d.sw>>} ELSE {}) \cup {<<(<<>>), (<<>>)>>}
  IN  {<<"identity", o.phone>> : o \in {o \in Elems(st.devs) : /\ o.phone \notin pieces
                                            /\ \/ <<o.plate, o.did, o.ver, o.pver>> \notin regs(o.phone)
                                               \/ <<o.imei, o.sw>> \notin auths(o.phone)}}
\* the flags of a location answer are those of a report with its values
ParFlags(P, S1) ==
  LET cand(p) == {SubSeq(m.body, 1, LocMin) : m \in {x \in UNION {Elems(P.ms[c]) : c \in DOMAIN P.ms} :
                                                      x.cls = "msg" /\ ~x.frag /\ x.id = Loc /\ x.phone = p /\ Len(x.body) >= LocMin}}
                 \cup (IF p \in DOMAIN S1.geo /\ S1.geo[p] # GeoUnknown THEN {S1.geo[p]} ELSE {})
      bad1(h) == h.m = "geo" /\ h.code = 200 /\ h.has
                 /\ LET k == {b \in cand(h.phone) : GeoValues(h.geo, b)} IN k # {} /\ \A b \in k : ~GeoFlags(h.geo, b)
  IN  {<<"geo-flags", h.phone, h.geo.flags>> : h \in {h \in Elems(P.http) \cup Elems(P.fin) : bad1(h)}}
\* strangers are cut off without a reply, terminals that are registered throughout are not
ParCut(P, st, S1) ==
  LET all == {x \in UNION {Elems(P.ms[c]) : c \in DOMAIN P.ms} : x.cls = "msg"}
      ever(p) == p \in DOMAIN S1.dev \/ \E x \in all : x.phone = p /\ x.id = Reg
      stays(p) == p \in DOMAIN S1.dev /\ ~MayRemove(S1.dev[p], P.t) /\ ~\E x \in all : x.phone = p /\ x.id \in {Dereg, Auth}
      cutting(m) == m.cls = "msg" /\ (m.id \in {Heart, Dereg, Auth, Loc} \/ (m.frag /\ Supported(m.id))) /\ ~ever(m.phone)
  IN  {<<"left-open", c>> : c \in {c \in DOMAIN P.ms \ P.closed : \E m \in Elems(P.ms[c]) : cutting(m)}}
      \cup {<<"stranger-answered", c>> : c \in {c \in DOMAIN P.ms : \E m \in Elems(P.ms[c]) : cutting(m) /\ \E o \in Elems(P.rep[c]) : o.phone = m.phone}}
      \cup {<<"closed", c>> : c \in {c \in (DOMAIN P.ms \cap P.closed) \ P.soft :
                              \A m \in Elems(P.ms[c]) : m.cls = "badsum" \/ (m.cls = "msg" /\ stays(m.phone))}}
      \cup {<<"listed", p>> : p \in {p \in Listed(st) : ~ever(p)}}

ParIssues(P, st, S1) ==
  LET lin == IF Linearizable(P, S1) THEN {} ELSE {<<"no-sequential-explanation">>}
      frames == FrameIssues(st)
      uniq == PlateIssues(st) \cup (IF Len(st.devs) # Cardinality(Listed(st)) THEN {<<"listed-twice">>} ELSE {})
      nreg == {r \in UNION {{<<c, i>> : i \in DOMAIN P.rep[c]} : c \in DOMAIN P.rep} : ReplyFields(P.rep[r[1]][r[2]]).k = RReply}
  IN  CASE Prop \in {"C05", "C06", "C07", "C08", "C10", "C11", "C12", "C15", "C18", "C21"} -> lin \cup uniq \cup CmdContent(P, st)
        [] Prop = "C17" -> frames \cup lin \cup CmdContent(P, st)
        [] Prop = "C16" -> ParSerialIssues(P)
        [] Prop = "C24" -> frames \cup lin \cup uniq \cup CmdContent(P, st) \cup ParSerialIssues(P) \cup ParReplies(P) \cup ParIdentity(P, st, S1)
                           \cup ParCut(P, st, S1) \cup ParFlags(P, S1)
        [] Prop = "C03" -> frames
        [] Prop \in {"C01", "C02"} -> lin \cup ParReplies(P)
        [] Prop = "C04" -> ParIdentity(P, st, S1)
        [] Prop = "C09" -> ParCut(P, st, S1)
        [] Prop = "C13" -> ParFlags(P, S1)
        [] Prop = "C14" -> lin \cup ParReplies(P)
        [] Prop = "C19" -> CmdContent(P, st)
        [] OTHER -> {}

------------------------------------------------------------------------------
(* Taking over what was observed *)
Adopt(o, st, cs1) ==
  LET k == {c \in DOMAIN cs1 : cs1[c].addr = o.addr /\ cs1[c].open}
  IN  [plate |-> o.plate, did |-> o.did, ver |-> o.ver, pver |-> o.pver, v19 |-> o.ver = "2019", imei |-> o.imei, sw |-> o.sw,
       status |-> o.status, conn |-> IF k = {} THEN "?" ELSE CHOOSE c \in k : TRUE, code |-> UnknownCode,
       lo |-> o.last, hi |-> o.last, z |-> "any"]
Resync(S1, st, cs1, loose) ==
  IF ~st.snap THEN S1 ELSE
  [S1 EXCEPT !.dev = [p \in Listed(st) |->
                        LET o == DevAt(st, p) IN
                        IF p \notin DOMAIN S1.dev THEN Adopt(o, st, cs1)
                        ELSE IF p \in loose THEN LET d == S1.dev[p] a == Adopt(o, st, cs1) IN
                             [a EXCEPT !.code = d.code, !.v19 = d.v19,
                                       !.z = IF o.last >= d.lo /\ o.last <= d.hi THEN d.z ELSE @,
                                       !.conn = IF d.conn \in DOMAIN cs1 /\ cs1[d.conn].addr = o.addr THEN d.conn ELSE @]
                        ELSE [S1.dev[p] EXCEPT !.status = o.status, !.plate = o.plate, !.did = o.did, !.ver = o.ver, !.pver = o.pver,
                                               !.imei = o.imei, !.sw = o.sw]],
             !.geo = [p \in DOMAIN S1.geo \cap Listed(st) |-> S1.geo[p]],
             !.seg = [k \in {k \in DOMAIN S1.seg : k[1] \in Listed(st)} |-> S1.seg[k]]]

SeqStep(st) ==
  LET A == an[1]
      gone == Elems(st.closed) \cup A.ended
  IN  /\ bad' = SeqIssues(A, st, S, cs)
      /\ cs' = [c \in DOMAIN A.cs |-> [NextSer(st, A, S, c) EXCEPT !.open = @ /\ c \notin gone]]
      /\ S' = Resync(A.S, st, cs', Loose(A))

\* after a concurrent step: whatever explains it agrees on what is observable; the auth codes come from the replies
ParCode(P, p, d) ==
  LET hits == {x \in UNION {{<<c, i, k>> : i \in DOMAIN P.rep[c], k \in DOMAIN P.ms[c]} : c \in DOMAIN P.ms} :
                 LET m == P.ms[x[1]][x[3]] r == ReplyFields(P.rep[x[1]][x[2]]) IN
                 m.cls = "msg" /\ m.id = Reg /\ m.phone = p /\ r.k = RReply /\ r.ser = m.ser /\ r.res = 0}
      lost == \E c \in DOMAIN P.ms \cap P.closed : \E k \in DOMAIN P.ms[c] :
                 LET m == P.ms[c][k] IN m.cls = "msg" /\ m.id = Reg /\ m.phone = p
  IN  IF hits = {} THEN (IF p \in DOMAIN S.dev /\ ~lost THEN S.dev[p].code ELSE UnknownCode)
      ELSE LET x == CHOOSE x \in hits : TRUE IN ReplyFields(P.rep[x[1]][x[2]]).code
\* the report a location query right after the step showed; <<>>: none
ParGeo(P, p, touched) ==
  LET asked == {i \in DOMAIN P.fin : P.fin[i].phone = p}
      cand  == {SubSeq(m.body, 1, LocMin) : m \in {x \in UNION {Elems(P.ms[c]) : c \in DOMAIN P.ms} :
                                                      x.cls = "msg" /\ x.id = Loc /\ x.phone = p /\ Len(x.body) >= LocMin}}
               \cup (IF p \in DOMAIN S.geo /\ S.geo[p] # GeoUnknown THEN {S.geo[p]} ELSE {})
      hit(h) == {b \in cand : GeoValues(h.geo, b) /\ GeoFlags(h.geo, b)}
  IN  IF p \notin touched THEN S.geo[p]
      ELSE IF asked = {} THEN GeoUnknown
      ELSE LET h == P.fin[CHOOSE i \in asked : TRUE]
           IN  IF ~h.has THEN <<>> ELSE IF hit(h) = {} THEN GeoUnknown ELSE CHOOSE b \in hit(h) : TRUE
ParStep(st) ==
  LET P == an[1]
      gone == P.closed \cup P.soft
      touched == {m.phone : m \in {x \in UNION {Elems(P.ms[c]) : c \in DOMAIN P.ms} : x.cls = "msg"}}
      conns == [p \in Listed(st) |->
                  LET o == DevAt(st, p) k == {c \in DOMAIN P.cs : P.cs[c].addr = o.addr /\ P.cs[c].open} IN
                  IF p \in DOMAIN S.dev /\ S.dev[p].conn \in DOMAIN P.cs /\ P.cs[S.dev[p].conn].addr = o.addr THEN S.dev[p].conn
                  ELSE IF k = {} THEN "?" ELSE CHOOSE c \in k : TRUE]
  IN  /\ bad' = ParIssues(P, st, S)
      /\ cs' = [c \in DOMAIN P.cs |->
                  [P.cs[c] EXCEPT !.open = @ /\ c \notin gone,
                                  !.fr = IF c \in DOMAIN P.fr THEN P.fr[c] ELSE @,
                                  !.ps = IF ParSerials(P, c) = <<>> THEN @
                                         ELSE LET set == Elems(ParSerials(P, c)) IN
                                              CHOOSE x \in set : ((x + 1) % 65536) \notin set \/ Cardinality(set) = 65536,
                                  !.skip = 0]]
      /\ S' = IF ~st.snap THEN S
              ELSE [dev |-> [p \in Listed(st) |->
                      IF p \in DOMAIN S.dev /\ p \notin touched THEN [S.dev[p] EXCEPT !.status = DevAt(st, p).status]
                      ELSE LET o == DevAt(st, p) IN
                           [plate |-> o.plate, did |-> o.did, ver |-> o.ver, pver |-> o.pver, v19 |-> o.ver = "2019",
                            imei |-> o.imei, sw |-> o.sw, status |-> o.status, conn |-> conns[p], code |-> ParCode(P, p, o),
                            lo |-> o.last, hi |-> o.last, z |-> "any"]],
                    geo |-> [p \in {p \in Listed(st) \cap (DOMAIN S.geo \cup touched) : ParGeo(P, p, touched) # <<>>} |-> ParGeo(P, p, touched)],
                    seg |-> EmptyMap]

Init == /\ ti \in DOMAIN Traces
        /\ si = 1 /\ S = S0 /\ cs = EmptyMap /\ bad = {} /\ an = <<>>
Step == Traces[ti].steps[si]
\* read a step, then judge it (two transitions, so that TLC works it out only once)
Read == /\ an = <<>>
        /\ an' = <<IF Step.par THEN ParFacts(Step, S, cs) ELSE Analyse(Step, S, cs)>>
        /\ UNCHANGED <<ti, si, S, cs, bad>>
Judge == /\ an # <<>>
         /\ IF Step.par THEN ParStep(Step) ELSE SeqStep(Step)
         /\ an' = <<>> /\ si' = si + 1 /\ UNCHANGED ti
Next == bad = {} /\ si <= Len(Traces[ti].steps) /\ (Read \/ Judge)
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
