------------------------------- MODULE RaceMC -------------------------------
(* The server as concurrent requests, each a sequence of critical sections   *)
(* (a lookup, a decision, an update; a timer entry added or dropped; a       *)
(* connection closed, its session forgotten), interleaved in every order.    *)
(* Checked: whatever the interleaving, what is registered, located and       *)
(* routed changes only as the atomic actions of Platform.tla allow, and      *)
(* every answer is one that some moment of the request justifies.            *)
(* The constants switch single precautions off; each of these variants has   *)
(* to fail (they show that the properties below say something).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Phones, PlateSet, Conns, Procs, MaxReg, MaxReq, Kinds,
          OneCheck,     \* registration checks and stores in one critical section
          SameReg,      \* updates and removals only touch the registration that was looked up
          CondInside,   \* expiry decides and removes in one critical section
          JobPerReg,    \* timer entries belong to a registration, not to a phone
          GeoInside,    \* the report is stored with the update of the registration
          GeoDropInside,\* a removal drops the reports in the same critical section
          OwnConn,      \* a command checks that the session is still the terminal's connection
          ClearOwn      \* a session is forgotten only if it is still the one of its address

None == 0
VARIABLES obj,      \* registrations made so far: phone, plate, status, connection, silent (its time is up)
          byPhone, byPlate, geo,   \* phone -> registration (0: none); geo: the registration whose report is kept
          jobs,     \* timer entries
          sess,     \* the connection the (single, shared) peer address stands for
          conn,     \* "new", "open", "gone" (the peer ended it), "closed"
          pr,       \* requests in progress
          left,     \* requests still to come
          gap,      \* whether the phone of a request was free at some moment of it (history)
          ev        \* what the last step answered (history)
vars == <<obj, byPhone, byPlate, geo, jobs, sess, conn, pr, left, gap, ev>>

Idle == [pc |-> "idle", op |-> "", p |-> 0, l |-> 0, c |-> "", d |-> 0, x |-> ""]
NoEv == [op |-> "", i |-> "", res |-> ""]
Job(d) == IF JobPerReg THEN <<"reg", d>> ELSE <<"phone", obj[d].phone>>

Init == /\ obj = <<>> /\ byPhone = [p \in Phones |-> None] /\ byPlate = [l \in PlateSet |-> None] /\ geo = [p \in Phones |-> None]
        /\ jobs = {} /\ sess = "none" /\ conn = [c \in Conns |-> "new"] /\ pr = [i \in Procs |-> Idle] /\ left = MaxReq /\ gap = [i \in Procs |-> FALSE] /\ ev = NoEv

Goto(i, r) == pr' = [pr EXCEPT ![i] = r]
Done(i, res) == /\ ev' = [op |-> pr[i].op, i |-> i, res |-> res] /\ Goto(i, Idle)
Step(i, r) == ev' = NoEv /\ Goto(i, r)
Busy(c) == \E i \in Procs : pr[i].pc # "idle" /\ pr[i].c = c   \* a connection's messages are handled one after another

Open(c) == /\ conn[c] = "new" /\ (IF sess = "none" THEN TRUE ELSE conn[sess] # "open")      \* the address may be in use again before its old session is forgotten
           /\ conn' = [conn EXCEPT ![c] = "open"] /\ sess' = c /\ ev' = NoEv
           /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, pr, left>>
PeerEnd(c) == /\ conn[c] = "open" /\ conn' = [conn EXCEPT ![c] = "gone"] /\ ev' = NoEv
              /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, pr, left>>
\* the server lets go of a connection: closes it and forgets its session
Forget(c) == /\ conn[c] \in {"gone", "closed"} /\ ~Busy(c)
             /\ conn' = [conn EXCEPT ![c] = "forgotten"]
             /\ sess' = IF ~ClearOwn \/ sess = c THEN "none" ELSE sess
             /\ ev' = NoEv /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, pr, left>>

Start(i, op, p, l, c) ==
  /\ pr[i].pc = "idle" /\ left > 0 /\ left' = left - 1
  /\ op \in Kinds
  /\ c # "" => conn[c] = "open" /\ ~Busy(c)
  /\ Step(i, [Idle EXCEPT !.pc = "begin", !.op = op, !.p = p, !.l = l, !.c = c])
  /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn>>
\* an expiry check of a registration whose timer entry is there
Tick(i, d) ==
  /\ pr[i].pc = "idle" /\ left > 0 /\ left' = left - 1 /\ "tick" \in Kinds
  /\ d \in 1 .. Len(obj) /\ Job(d) \in jobs
  /\ Step(i, [Idle EXCEPT !.pc = "begin", !.op = "tick", !.d = d, !.p = obj[d].phone])
  /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn>>
\* time goes by: a registration was silent for long
Silence(d) == /\ d \in 1 .. Len(obj) /\ ~obj[d].silent /\ byPhone[obj[d].phone] = d /\ "tick" \in Kinds
              /\ obj' = [obj EXCEPT ![d].silent = TRUE] /\ ev' = NoEv
              /\ UNCHANGED <<byPhone, byPlate, geo, jobs, sess, conn, pr, left>>

CutOff(i) == /\ conn' = IF pr[i].c = "" THEN conn ELSE [conn EXCEPT ![pr[i].c] = IF @ = "open" THEN "closed" ELSE @]
             /\ Done(i, "cut")
Remove(d) == /\ byPhone' = [byPhone EXCEPT ![obj[d].phone] = None]
             /\ byPlate' = [l \in PlateSet |-> IF byPlate[l] # None /\ (l = obj[d].plate) THEN None ELSE byPlate[l]]
             /\ geo' = IF GeoDropInside THEN [geo EXCEPT ![obj[d].phone] = None] ELSE geo
Current(d) == byPhone[obj[d].phone] = d
Match(d) == IF SameReg THEN Current(d) ELSE byPhone[obj[d].phone] # None

Register(i) ==
  LET r == pr[i] IN
  \/ /\ r.pc = "begin" /\ r.op = "reg" /\ OneCheck
     /\ IF byPlate[r.l] # None THEN Done(i, "plate") /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs>>
        ELSE IF byPhone[r.p] # None THEN Done(i, "phone") /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs>>
        ELSE /\ Len(obj) < MaxReg
             /\ obj' = Append(obj, [phone |-> r.p, plate |-> r.l, status |-> "offline", conn |-> r.c, silent |-> FALSE])
             /\ byPhone' = [byPhone EXCEPT ![r.p] = Len(obj) + 1] /\ byPlate' = [byPlate EXCEPT ![r.l] = Len(obj) + 1]
             /\ ev' = [op |-> "registered", i |-> i, res |-> ""]
             /\ Goto(i, [r EXCEPT !.pc = "timer", !.d = Len(obj) + 1]) /\ UNCHANGED <<geo, jobs>>
     /\ UNCHANGED <<sess, conn, left>>
  \/ /\ r.pc = "begin" /\ r.op = "reg" /\ ~OneCheck
     /\ IF byPlate[r.l] # None THEN Done(i, "plate") ELSE IF byPhone[r.p] # None THEN Done(i, "phone") ELSE Step(i, [r EXCEPT !.pc = "store"])
     /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn, left>>
  \/ /\ r.pc = "store" /\ Len(obj) < MaxReg
     /\ obj' = Append(obj, [phone |-> r.p, plate |-> r.l, status |-> "offline", conn |-> r.c, silent |-> FALSE])
     /\ byPhone' = [byPhone EXCEPT ![r.p] = Len(obj) + 1] /\ byPlate' = [byPlate EXCEPT ![r.l] = Len(obj) + 1]
     /\ ev' = [op |-> "registered", i |-> i, res |-> ""]
     /\ Goto(i, [r EXCEPT !.pc = "timer", !.d = Len(obj) + 1]) /\ UNCHANGED <<geo, jobs, sess, conn, left>>
  \/ /\ r.pc = "timer" /\ jobs' = jobs \cup {Job(r.d)} /\ UNCHANGED <<obj, byPhone, byPlate, geo, sess, conn, left>> /\ Done(i, "ok")

\* heartbeat, authentication with the right code, location report: look up, then update
Update(i) ==
  LET r == pr[i] IN
  \/ /\ r.pc = "begin" /\ r.op \in {"heart", "auth", "loc", "dereg", "wrong"}
     /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, left>>
     /\ IF byPhone[r.p] = None THEN CutOff(i)
        ELSE Step(i, [r EXCEPT !.pc = IF r.op \in {"dereg", "wrong"} THEN "cancel" ELSE "update", !.d = byPhone[r.p]]) /\ UNCHANGED conn
  \/ /\ r.pc = "update" /\ Match(r.d)
     /\ obj' = [obj EXCEPT ![r.d].status = CASE r.op = "auth" -> "online" [] r.op = "loc" -> "sleeping" [] OTHER -> @,
                           ![r.d].conn = IF r.op = "auth" THEN r.c ELSE @, ![r.d].silent = FALSE]
     /\ byPhone' = [byPhone EXCEPT ![r.p] = r.d]         \* the same, unless SameReg is off
     /\ geo' = IF r.op = "loc" /\ GeoInside THEN [geo EXCEPT ![r.p] = r.d] ELSE geo
     /\ UNCHANGED <<byPlate, jobs, sess, conn, left>>
     /\ IF r.op = "loc" /\ ~GeoInside THEN Step(i, [r EXCEPT !.pc = "geo"]) ELSE Done(i, "ok")
  \/ /\ r.pc = "update" /\ ~Match(r.d) /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, left>> /\ CutOff(i)
  \/ /\ r.pc = "geo" /\ geo' = [geo EXCEPT ![r.p] = r.d] /\ UNCHANGED <<obj, byPhone, byPlate, jobs, sess, conn, left>> /\ Done(i, "ok")
  \/ /\ r.pc = "cancel" /\ jobs' = jobs \ {Job(r.d)} /\ UNCHANGED <<obj, byPhone, byPlate, geo, sess, conn, left>>
     /\ Step(i, [r EXCEPT !.pc = "remove"])
  \/ /\ r.pc = "remove" /\ Match(r.d) /\ Remove(r.d) /\ UNCHANGED <<obj, jobs, sess, conn, left>>
     /\ IF GeoDropInside THEN Done(i, "ok") ELSE Step(i, [r EXCEPT !.pc = "drop"])
  \/ /\ r.pc = "remove" /\ ~Match(r.d) /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, left>> /\ CutOff(i)
  \/ /\ r.pc = "drop" /\ geo' = [geo EXCEPT ![r.p] = None] /\ UNCHANGED <<obj, byPhone, byPlate, jobs, sess, conn, left>> /\ Done(i, "ok")

Expire(i) ==
  LET r == pr[i] IN
  /\ r.op = "tick"
  /\ \/ /\ r.pc = "begin" /\ ~Current(r.d)
        /\ Step(i, [r EXCEPT !.pc = "untimer"]) /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn, left>>
     \/ /\ r.pc = "begin" /\ Current(r.d) /\ obj[r.d].silent /\ obj[r.d].status # "offline"
        /\ obj' = [obj EXCEPT ![r.d].status = "offline"]
        /\ UNCHANGED <<byPhone, byPlate, geo, jobs, sess, conn, left>> /\ Done(i, "offline")
     \/ /\ r.pc = "begin" /\ Current(r.d) /\ obj[r.d].silent /\ obj[r.d].status = "offline"
        /\ IF CondInside THEN Remove(r.d) /\ Goto(i, [r EXCEPT !.pc = "close", !.c = obj[r.d].conn]) /\ ev' = [op |-> "expired", i |-> i, res |-> ""]
           ELSE Step(i, [r EXCEPT !.pc = "late"]) /\ UNCHANGED <<byPhone, byPlate, geo>>
        /\ UNCHANGED <<obj, jobs, sess, conn, left>>
     \/ /\ r.pc = "begin" /\ Current(r.d) /\ ~obj[r.d].silent
        /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn, left>> /\ Done(i, "stays")
     \/ /\ r.pc = "late" /\ IF Current(r.d) THEN Remove(r.d) /\ Goto(i, [r EXCEPT !.pc = "close", !.c = obj[r.d].conn]) /\ ev' = [op |-> "expired", i |-> i, res |-> ""]
                            ELSE Step(i, [r EXCEPT !.pc = "untimer"]) /\ UNCHANGED <<byPhone, byPlate, geo>>
        /\ UNCHANGED <<obj, jobs, sess, conn, left>>
     \/ /\ r.pc = "close" /\ conn' = [conn EXCEPT ![r.c] = IF @ = "open" THEN "closed" ELSE @]
        /\ Step(i, [r EXCEPT !.pc = "untimer", !.c = ""]) /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, left>>
     \/ /\ r.pc = "untimer" /\ jobs' = jobs \ {Job(r.d)} /\ UNCHANGED <<obj, byPhone, byPlate, geo, sess, conn, left>> /\ Done(i, "gone")

\* a command: find the terminal's session, then write
Command(i) ==
  LET r == pr[i] IN
  \/ /\ r.pc = "begin" /\ r.op = "cmd" /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn, left>>
     /\ LET d == byPhone[r.p] IN
        IF d = None \/ sess = "none" \/ (OwnConn /\ sess # obj[d].conn) THEN Done(i, "refused")
        ELSE Step(i, [r EXCEPT !.pc = "write", !.d = d, !.x = sess])
  \/ /\ r.pc = "write" /\ UNCHANGED <<obj, byPhone, byPlate, geo, jobs, sess, conn, left>>
     /\ Done(i, IF conn[r.x] = "open" THEN "sent" ELSE "lost")

Act ==  \/ \E c \in Conns : Open(c) \/ PeerEnd(c) \/ Forget(c)
        \/ \E i \in Procs : \/ \E p \in Phones, c \in Conns : \/ \E l \in PlateSet : Start(i, "reg", p, l, c)
                                                              \/ \E op \in {"heart", "auth", "loc", "dereg", "wrong"} : Start(i, op, p, 0, c)
                            \/ \E p \in Phones : Start(i, "cmd", p, 0, "")
                            \/ \E d \in 1 .. MaxReg : Tick(i, d)
                            \/ Register(i) \/ Update(i) \/ Expire(i) \/ Command(i)
        \/ \E d \in 1 .. MaxReg : Silence(d)
Next == Act /\ gap' = [i \in Procs |-> pr'[i].pc # "idle" /\ pr'[i].p # 0 /\ (gap[i] \/ byPhone'[pr'[i].p] = None)]
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Registered == {p \in Phones : byPhone[p] # None}
\* one registration per phone and per plate; the two views agree
Unique == /\ \A p \in Registered : byPlate[obj[byPhone[p]].plate] = byPhone[p]
          /\ \A l \in PlateSet : byPlate[l] # None => byPhone[obj[byPlate[l]].phone] = byPlate[l]
GeoOwn == \A p \in Phones : geo[p] # None => geo[p] = byPhone[p]
\* every registration that stays is going to be looked at again
Watched == \A p \in Registered : LET d == byPhone[p] IN
             Job(d) \in jobs \/ \E i \in Procs : pr[i].d = d /\ pr[i].pc \in {"timer", "remove"}
\* an open connection can be reached: its session is the one of the address
Reachable == \A c \in Conns : conn[c] = "open" => sess = c
\* a command goes to the connection the terminal was on when it was asked for, or nowhere
Routed == \A i \in Procs : pr[i].pc = "write" => pr[i].x \in Conns

(* Every change is one of the atomic actions *)
Same(p) == byPhone'[p] = byPhone[p]
View(d) == [plate |-> obj[d].plate, status |-> obj[d].status, conn |-> obj[d].conn]
Added == {p \in Phones : byPhone[p] = None /\ byPhone'[p] # None}
Dropped == {p \in Phones : byPhone[p] # None /\ byPhone'[p] = None}
Replaced == {p \in Phones : byPhone[p] # None /\ byPhone'[p] # None /\ byPhone'[p] # byPhone[p]}
Actor == CHOOSE i \in Procs : pr'[i] # pr[i] /\ pr[i].pc # "idle"
Acts == \E i \in Procs : pr[i].pc # "idle" /\ pr'[i].pc # pr[i].pc
\* the request that moved
Moved == {i \in Procs : pr[i].pc # "idle" /\ pr'[i].pc # pr[i].pc}
Atomic == [][ /\ Replaced = {}
              /\ Cardinality(Added \cup Dropped) <= 1
              /\ \A p \in Added : \E i \in Moved : pr[i].op = "reg" /\ pr[i].p = p /\ byPlate[pr[i].l] = None
              /\ \A p \in Dropped : \E i \in Moved : /\ pr[i].op \in {"dereg", "wrong", "tick"} /\ pr[i].p = p /\ pr[i].d = byPhone[p]
                                                     /\ pr[i].op = "tick" => obj[byPhone[p]].silent /\ obj[byPhone[p]].status = "offline"
            ]_vars
\* what answers say was so at some moment of the request
Justified == [][ \A i \in Moved :
                   LET r == pr[i] IN ev'.i = i =>
                   /\ ev'.res = "plate" => \E d \in 1 .. Len(obj) : byPhone[obj[d].phone] = d /\ obj[d].plate = r.l
                   /\ ev'.res = "phone" => byPhone[r.p] # None
                   /\ ev'.res = "cut" => gap[i] \/ byPhone[r.p] = None
                   /\ ev'.res = "ok" /\ r.op \in {"heart", "auth"} => byPhone'[r.p] = r.d
                   /\ ev'.res = "ok" /\ r.op = "loc" => geo'[r.p] = byPhone'[r.p] /\ geo'[r.p] # None ]_vars
\* a status changes only by the terminal's own messages or by expiry
StatusMoves == [][ \A d \in 1 .. Len(obj) :
                     obj'[d].status # obj[d].status =>
                       \E i \in Moved : pr[i].d = d /\ (pr[i].op \in {"auth", "loc", "tick"}) /\ byPhone[obj[d].phone] = d
                          /\ (pr[i].op = "tick" => obj[d].silent) ]_vars
\* a command that is written goes where the terminal was when it was asked for
CmdOwn == [][ \A i \in Moved : pr[i].op = "cmd" /\ pr'[i].pc = "write" =>
                byPhone[pr[i].p] # None /\ pr'[i].x = obj[byPhone[pr[i].p]].conn ]_vars
\* only expiry and messages of unknown terminals close connections
ClosedBy == [][ \A c \in Conns : conn[c] = "open" /\ conn'[c] = "closed" =>
                  \E i \in Moved : pr[i].c = c /\ (pr[i].op = "tick" \/ ev'.res = "cut") ]_vars
=============================================================================
