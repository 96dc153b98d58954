------------------------------- MODULE LoopMC -------------------------------
(* The closed loop: simulated terminals (Terminal) and the platform         *)
(* (Platform) joined by two byte streams each, which may break; time passes *)
(* and silent terminals expire.  What the two specifications amount to      *)
(* together.                                                                *)
EXTENDS Terminal, TLC

CONSTANTS Terms,      \* terminals: phones
          SamePlate,  \* they all claim the same plate
          Lossy,      \* connections may break
          Timed,      \* time passes
          Cap         \* messages of its own a terminal has under way

VARIABLES S, T, up, down, open, sent, now, chk
vars == <<S, T, up, down, open, sent, now, chk>>

PlateOf == [p \in Terms |-> IF SamePlate THEN <<7>> ELSE <<7, p>>]
Code(p) == <<p, 9>>
Q0 == [id |-> 0, v19 |-> FALSE, pver |-> 0, phone |-> <<>>, nibs |-> <<>>, ser |-> 1, plate |-> <<>>, did |-> <<>>,
       ver |-> "2013", code |-> <<>>, imei |-> <<>>, sw |-> <<>>, acc |-> 1, rep |-> <<>>]
M(p, id, body) == [cls |-> "msg", id |-> id, len |-> Len(body), enc |-> 0, frag |-> FALSE, v19 |-> FALSE, ext |-> 0, pver |-> 0,
                   nibs |-> p, phone |-> p, ser |-> 1, total |-> 0, index |-> 0, body |-> body]
\* the platform's reply as the terminal reads it
Down(r, p) == IF r.k = RReply THEN M(p, RReply, WordB(r.ser) \o <<r.res>> \o (IF r.res = 0 THEN Code(p) ELSE <<>>))
              ELSE M(p, GReply, WordB(r.ser) \o WordB(r.id) \o <<r.res>>)

Init == /\ S = S0 /\ now = 0 /\ chk = EmptyMap
        /\ T = [p \in Terms |-> NewTerminal(p, FALSE, <<>>, <<>>)]
        /\ up = [p \in Terms |-> <<>>] /\ down = [p \in Terms |-> <<>>]
        /\ open = Terms /\ sent = {}

Register(p) == /\ p \notin sent
               /\ sent' = sent \cup {p}
               /\ up' = [up EXCEPT ![p] = Append(@, [Q0 EXCEPT !.id = Reg, !.phone = p, !.plate = PlateOf[p]])]
               /\ UNCHANGED <<S, T, down, open, now, chk>>
\* heartbeats and reports once online
Talk(p, id) == /\ T[p].online /\ p \in open /\ Len(up[p]) + Len(down[p]) < Cap
               /\ up' = [up EXCEPT ![p] = Append(@, [Q0 EXCEPT !.id = id, !.phone = p, !.rep = Zeros(LocMin)])]
               /\ UNCHANGED <<S, T, down, open, sent, now, chk>>
Serve(p) == /\ p \in open /\ up[p] # <<>>
            /\ LET q == Head(up[p]) h == Handle(S, p, q, now, now, Code(p)) IN
               /\ S' = h.S
               /\ chk' = [x \in DOMAIN h.S.dev |-> IF x \in DOMAIN S.dev THEN chk[x] ELSE now + KeepMs]
               /\ open' = IF h.close THEN open \ {p} ELSE open
               /\ up' = [up EXCEPT ![p] = Tail(@)]
               /\ down' = [down EXCEPT ![p] = @ \o [i \in DOMAIN h.rep |-> Down(h.rep[i], p)]]
            /\ UNCHANGED <<T, sent, now>>
Terminal(p) == /\ down[p] # <<>>
               /\ LET h == THandle(T[p], Head(down[p])) IN
                  /\ T' = [T EXCEPT ![p] = h.T]
                  /\ down' = [down EXCEPT ![p] = Tail(@)]
                  /\ up' = [up EXCEPT ![p] = @ \o [i \in DOMAIN h.rep |-> [Q0 EXCEPT !.id = h.rep[i].id, !.phone = p, !.code = h.rep[i].body]]]
               /\ UNCHANGED <<S, open, sent, now, chk>>
Break(p) == /\ Lossy /\ p \in open
            /\ open' = open \ {p} /\ up' = [up EXCEPT ![p] = <<>>] /\ down' = [down EXCEPT ![p] = <<>>]
            /\ UNCHANGED <<S, T, sent, now, chk>>
Check(p) == LET d == S.dev[p] old == now - d.lo > KeepMs IN
            /\ chk[p] <= now
            /\ IF d.status # Offline /\ old THEN S' = SetDev(S, p, [d EXCEPT !.status = Offline]) /\ chk' = [chk EXCEPT ![p] = now + KeepMs] /\ UNCHANGED open
               ELSE IF old THEN S' = DropDev(S, p) /\ chk' = Del(chk, p) /\ open' = open \ {d.conn}
               ELSE chk' = [chk EXCEPT ![p] = now + KeepMs] /\ UNCHANGED <<S, open>>
            /\ UNCHANGED <<T, up, down, sent, now>>
Tick == /\ Timed /\ \A p \in DOMAIN S.dev : chk[p] > now
        /\ now' = now + KeepMs \div 2
        /\ UNCHANGED <<S, T, up, down, open, sent, chk>>
Next == \/ \E p \in Terms : Register(p) \/ Talk(p, Heart) \/ Talk(p, Loc) \/ Serve(p) \/ Terminal(p) \/ Break(p)
        \/ \E p \in DOMAIN S.dev : Check(p)
        \/ Tick
Fair == \A p \in Terms : WF_vars(Register(p)) /\ WF_vars(Serve(p)) /\ WF_vars(Terminal(p))
Spec == Init /\ [][Next]_vars /\ Fair
Age(t) == Min2(now - t, 4 * KeepMs)
View == <<[p \in DOMAIN S.dev |-> [S.dev[p] EXCEPT !.lo = Age(@), !.hi = 0]], S.geo, T, up, down, open, sent, [p \in DOMAIN chk |-> chk[p] - now]>>

------------------------------------------------------------------------------
Quiet(p) == up[p] = <<>> /\ down[p] = <<>>
\* the terminal never presents a code other than the one of its registration
CodesAgree == \A p \in Terms : \A i \in DOMAIN up[p] : up[p][i].id = Auth /\ p \in DOMAIN S.dev => up[p][i].code = S.dev[p].code
\* two terminals with the same plate: at most one ever gets through
OnePlate == \A p, r \in Terms : p # r /\ PlateOf[p] = PlateOf[r] /\ ~Timed => ~(T[p].online /\ T[r].online)
\* without loss and without time passing, both sides agree whenever nothing is under way
Agree == ~Lossy /\ ~Timed => \A p \in Terms : Quiet(p) /\ p \in sent => (T[p].online <=> p \in DOMAIN S.dev /\ S.dev[p].status = Online)
\* a terminal that is online got there through the platform's acceptance
OnlineEarned == \A p \in Terms : T[p].online => p \in sent /\ ~T[p].ended
Stays == [][\A p \in Terms : T[p].ended => up'[p] = up[p] \/ Len(up'[p]) < Len(up[p])]_vars
\* every terminal gets through or is refused
Settles == ~Lossy /\ ~Timed => \A p \in Terms : <>(T[p].online \/ T[p].ended)
SomeOneGets == ~Lossy /\ ~Timed => <>(\E p \in Terms : T[p].online /\ p \in DOMAIN S.dev /\ S.dev[p].status = Online)
=============================================================================
