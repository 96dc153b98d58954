--------------------------- MODULE TerminalTrace ---------------------------
(* Validation of recorded executions of the real simulated terminal.  A     *)
(* trace may have several terminals (one per connection) in one process.    *)
EXTENDS Terminal, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Prop   == IOEnv.VERIF_PROP

VARIABLES ti, si, ts, bad, an
vars == <<ti, si, ts, bad, an>>
\* ts: connection -> [T: terminal, fr: reader, q: messages not yet looked at]

Pick(pairs, c, d) == LET s == SelectSeq(pairs, LAMBDA x : x[1] = c) IN IF s = <<>> THEN d ELSE s[1][2]

(* handle messages until one makes the terminal pause; the rest waits *)
RECURSIVE Work(_, _, _, _)
Work(acc, ms, k, obs) ==
  IF k > Len(ms) THEN acc
  ELSE IF acc.pause \/ acc.wild THEN [acc EXCEPT !.q = SubSeq(ms, k, Len(ms))]
  ELSE LET h  == THandle(acc.T, ms[k])
           n  == Len(acc.exp) + 1
           T2 == IF h.rep # <<>> /\ h.rep[1].id = PList /\ n <= Len(obs) /\ obs[n].cls = "msg" /\ obs[n].id = PList
                 THEN Learn(h.T, obs[n].body) ELSE h.T
       IN  Work([acc EXCEPT !.T = TLCEval(T2),
                            !.exp = @ \o [i \in DOMAIN h.rep |-> [id |-> h.rep[i].id, body |-> h.rep[i].body, ser |-> ms[k].ser, T |-> h.T]],
                            !.pause = h.pause, !.wild = h.wild], ms, k + 1, obs)

(* One connection in one step *)
Facts(st, c) ==
  LET r   == Feed(ts[c].fr, Pick(st.ins, c, <<>>))
      ms  == ts[c].q \o [k \in DOMAIN r.fr |-> Parse(r.fr[k])]
      own == Pick(st.cmds, c, <<>>)       \* what it was told to send by itself: [id, body, plate, did]
      out == Pick(st.out, c, <<>>)
      obs == TLCEval(ParseAll(out))
      w   == Work([T |-> ts[c].T, exp |-> <<>>, pause |-> FALSE, wild |-> FALSE, q |-> <<>>], ms, 1, From(obs, Len(own) + 1))
  IN  [w |-> w, fr |-> r.st, own |-> own, raw |-> out, obs |-> obs]

TermOf(o) == NewTerminal(o.phone, o.v19, o.imei, o.sw)

AnswerIssues(c, e, o) ==
  (IF o.cls # "msg" \/ o.id # e.id THEN {<<"answer-id", c, e.id, o.cls, o.id>>}
   ELSE (IF o.phone # e.T.phone \/ o.v19 # e.T.v19 THEN {<<"answer-header", c, o.phone, o.v19>>} ELSE {})
        \cup (IF o.len # Len(o.body) THEN {<<"answer-length", c, o.len>>} ELSE {})
        \cup (IF e.body # AnyBody
              THEN IF (IF e.id = MList THEN Len(o.body) = 34 /\ SubSeq(o.body, 1, Len(e.body)) = e.body ELSE o.body = e.body) THEN {}
                   ELSE {<<"answer-body", c, e.id, e.body, o.body>>}
              ELSE IF Len(o.body) < 2 \/ SubSeq(o.body, 1, 2) # WordB(e.ser) THEN {<<"answer-serial", c, e.ser, o.body>>}
              ELSE IF ~SoundList(o.body) THEN {<<"answer-list", c, o.body>>}
              ELSE IF e.T.set /\ ParamsOf(o.body) # e.T.params
                   THEN LET p == ParamsOf(o.body) IN
                        {<<"answer-params", c, {x \in DOMAIN p \cup DOMAIN e.T.params : Get(p, x, <<>>) # Get(e.T.params, x, <<>>)},
                           DOMAIN p = DOMAIN e.T.params>>}
              ELSE {}))
OwnIssues(c, e, o) ==
  IF o.cls # "msg" \/ o.id # e.id \/ o.phone # ts[c].T.phone \/ o.v19 # ts[c].T.v19 \/ o.len # Len(o.body) THEN {<<"own-frame", c, e.id, o.cls, o.id>>}
  ELSE IF e.id = Reg THEN IF Len(o.body) < RegMin(o) \/ RegFields(o).did # e.did \/ RegFields(o).plate # e.plate THEN {<<"own-identity", c, o.body>>} ELSE {}
  ELSE IF o.body # e.body THEN {<<"own-body", c, e.id, e.body, o.body>>} ELSE {}

\* answers too long for one frame are left open
TooLong(e) == e.id = PList /\ e.T.set /\ ListSize(e.T) > MaxBody
ConnIssues(st, c, F) ==
  LET n == Len(F.own) m == Len(F.w.exp) o == F.obs IN
  IF F.w.wild \/ \E k \in DOMAIN F.w.exp : TooLong(F.w.exp[k]) THEN {}
  ELSE (IF WholeFrames(F.raw) THEN {} ELSE {<<"frames", c, F.raw>>})
       \cup (IF Len(o) # n + m THEN {<<"answer-count", c, n + m, Len(o)>>} ELSE {})
       \cup UNION {OwnIssues(c, F.own[k], o[k]) : k \in 1 .. Min2(n, Len(o))}
       \cup UNION {AnswerIssues(c, F.w.exp[k], o[n + k]) : k \in 1 .. Min2(m, Len(o) - n)}
       \cup (LET a == Pick(st.alive, c, ~F.w.T.ended) IN
             IF a # ~F.w.T.ended THEN {<<"ended", c, F.w.T.ended, a>>} ELSE {})
       \cup (IF st.snap /\ Pick(st.status, c, -1) # (IF F.w.T.online THEN Online ELSE Offline)
             THEN {<<"online", c, F.w.T.online, Pick(st.status, c, -1)>>} ELSE {})

(* status words through decoding and encoding: the flag bits stay, the others vanish *)
Masked(w) == [i \in 1 .. 4 |-> FoldLeft(LAMBDA a, k : IF (4 - i) * 8 + k \in FlagBits THEN a + Bit(w[i], k) * 2 ^ k ELSE a, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
EncIssues(st) == {<<"flags-inverse", st.enc[k][1], st.enc[k][2]>> : k \in {k \in DOMAIN st.enc : st.enc[k][2] # Masked(st.enc[k][1])}}

(* The closed loop, when nothing is under way any more: what the platform   *)
(* lists for a terminal agrees with the terminal (LoopMC, Agree), and so do *)
(* the last report and, after a setting through the platform, the values.   *)
PeerIssues(A, st) ==
  UNION {LET p == st.peer[k] F == A[p.conn] IN
         (IF F.w.wild \/ (p.status = Online <=> F.w.T.online) THEN {} ELSE {<<"loop-online", p.conn, p.status, F.w.T.online>>})
         \cup (IF p.geo = <<>> \/ p.geo = p.sent THEN {} ELSE {<<"loop-report", p.conn, p.geo, p.sent>>})
         : k \in DOMAIN st.peer}

Issues(A, st) ==
  IF Prop = "C13" THEN EncIssues(st) \cup UNION {{x \in ConnIssues(st, c, A[c]) : x[1] = "own-body"} : c \in DOMAIN A}
  ELSE IF Prop = "C19" THEN UNION {{x \in ConnIssues(st, c, A[c]) : x[1] \in {"answer-list", "answer-params", "answer-serial"}} : c \in DOMAIN A}
  ELSE IF Prop = "C03" THEN UNION {{x \in ConnIssues(st, c, A[c]) : x[1] = "frames"} : c \in DOMAIN A}
  ELSE EncIssues(st) \cup PeerIssues(A, st) \cup UNION {ConnIssues(st, c, A[c]) : c \in DOMAIN A}

Init == /\ ti \in DOMAIN Traces /\ si = 1 /\ ts = EmptyMap /\ bad = {} /\ an = <<>>
Step == Traces[ti].steps[si]
Read == /\ an = <<>>
        /\ ts' = FoldLeft(LAMBDA a, o : Put(a, o.conn, [T |-> TermOf(o), fr |-> Idle, q |-> <<>>]), ts, Step.opens)
        /\ an' = <<0>> /\ UNCHANGED <<ti, si, bad>>
Judge == /\ an # <<>>
         /\ LET A == TLCEval([c \in DOMAIN ts |-> Facts(Step, c)]) IN
            /\ bad' = Issues(A, Step)
            /\ ts' = [c \in DOMAIN ts |-> [T |-> A[c].w.T, fr |-> A[c].fr, q |-> A[c].w.q]]
         /\ an' = <<>> /\ si' = si + 1 /\ UNCHANGED ti
Next == bad = {} /\ si <= Len(Traces[ti].steps) /\ (Read \/ Judge)
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
