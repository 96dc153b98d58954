---------------------------- MODULE MessagesTrace ----------------------------
(* Validation of what the real codec did with messages: frames it was given  *)
(* to read (what it made of them, and what it wrote when asked to write that *)
(* again), messages it was given to write, headers (also of fragments).      *)
EXTENDS Messages, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Prop   == IOEnv.VERIF_PROP

VARIABLES ti, si, bad, an
vars == <<ti, si, bad, an>>

\* parameter values as read (JSON numbers and strings) against the items
ListIssues(r, val) ==
  LET it == Items(From(val, 2)) IN
  IF Len(r.items) # Len(it) THEN {<<"items", r.id, Len(it), Len(r.items)>>}
  ELSE UNION {IF r.items[k].id # it[k].id THEN {<<"item-id", k, it[k].id, r.items[k].id>>}
              ELSE IF Kind(it[k].id) = "unknown" THEN {}
              ELSE IF Encoding(Kind(it[k].id), r.items[k].v) # <<it[k].val>> THEN {<<"item-value", it[k].id, it[k].val>>} ELSE {} : k \in DOMAIN it}
AllKnown(val) == \A k \in DOMAIN Items(From(val, 2)) : Kind(Items(From(val, 2))[k].id) # "unknown"

ReadIssues(r) ==
  LET m   == Parse(Feed(Idle, r.frame).fr[1])
      ver == VerOf(m)
      l   == Layout(m.id, ver)
      e   == ReadBody(m.id, ver, m.body)
      lst == {i \in DOMAIN l : l[i].k = "list"}
      exact == e.p = Len(m.body) + 1 /\ \A i \in lst : AllKnown(e.v[i])
  IN  IF ~Sound(m) \/ e.bad THEN {}                                 \* not what the protocol allows: left open
      ELSE IF r.err THEN {<<"not-read", m.id, r.frame>>}
      ELSE (IF r.h # HeadOf(m) THEN {<<"header", HeadOf(m), r.h>>} ELSE {})
           \cup (IF r.len # m.len THEN {<<"length", m.len, r.len>>} ELSE {})
           \cup UNION {IF l[i].k = "list" THEN ListIssues(r, e.v[i])
                       ELSE IF r.vals[i] # e.v[i] THEN {<<"field", m.id, ver, i, e.v[i], r.vals[i]>>} ELSE {} : i \in DOMAIN l}
           \cup (IF exact /\ r.again # r.frame THEN {<<"written-again", m.id, r.frame, r.again>>} ELSE {})

\* w: h, ver, vals ([] for a list: items), what was written
WriteIssues(w) ==
  LET l    == Layout(w.h.id, w.ver)
      vals == [i \in DOMAIN l |-> IF l[i].k = "list" THEN SetBody(w.items) ELSE w.vals[i]]
      body == TLCEval(BodyBytes(w.h.id, w.ver, vals))
  IN  IF Len(body) > MaxBody \/ \E i \in DOMAIN l : l[i].k = "len" /\ Len(vals[i]) > 255 THEN (IF w.err THEN {} ELSE {<<"too-long-written", w.h.id, w.out>>})
      ELSE IF w.err THEN {<<"not-written", w.h.id>>}
      ELSE IF w.out # Wrap(HeadBytes(w.h, Len(body)) \o body) THEN {<<"written", w.h.id, w.ver, Wrap(HeadBytes(w.h, Len(body)) \o body), w.out>>} ELSE {}

HeadIssues(h) ==
  LET m == Parse(Feed(Idle, Wrap(h.raw)).fr[1]) IN
  IF h.err THEN {<<"header-not-read", h.raw>>}
  ELSE (IF h.h # HeadOf(m) \/ h.len # m.len THEN {<<"header", HeadOf(m), m.len, h.h, h.len>>} ELSE {})
       \cup (IF h.again # HeadBytes(HeadOf(m), m.len) THEN {<<"header-again", h.raw, h.again>>} ELSE {})

Issues(st) == UNION {ReadIssues(st.read[k]) : k \in DOMAIN st.read} \cup UNION {WriteIssues(st.write[k]) : k \in DOMAIN st.write}
              \cup UNION {HeadIssues(st.heads[k]) : k \in DOMAIN st.heads}

Init == ti \in DOMAIN Traces /\ si = 1 /\ bad = {} /\ an = <<>>
Step == Traces[ti].steps[si]
Read  == an = <<>> /\ an' = <<0>> /\ UNCHANGED <<ti, si, bad>>
Judge == an # <<>> /\ bad' = Issues(Step) /\ an' = <<>> /\ si' = si + 1 /\ UNCHANGED ti
Next == bad = {} /\ si <= Len(Traces[ti].steps) /\ (Read \/ Judge)
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
