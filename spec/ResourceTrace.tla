--------------------------- MODULE ResourceTrace ---------------------------
(* Validation of measurements of the real server: the same kind of history  *)
(* (connections, registrations, messages that come and go) repeated, with   *)
(* the population at the moments of measurement the same.  ResourceMC says  *)
(* that what is held then is the same, too: it may not grow with the number *)
(* of repetitions.                                                          *)
(* A measurement: cycles so far, goroutines, objects and KiB on the heap,   *)
(* connections the peer has left that are still open, connections open,     *)
(* terminals listed; conns, terms: how many connections and terminals stay. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS KeepMs, SlackMs
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Prop   == IOEnv.VERIF_PROP

VARIABLES ti, si, ms, bad, an
vars == <<ti, si, ms, bad, an>>

Grown(a, b) == IF b > a THEN b - a ELSE 0
\* a part of the repetitions leaves something behind, again and again (filling a cache of fixed size happens once)
Each(a, b, f(_), num, den, slack) == Grown(f(a), f(b)) > slack + ((b.cycles - a.cycles) * num) \div den
Issues(m) ==
  (IF m.kept > 0 THEN {<<"ended-connections-kept", m.kept>>} ELSE {})
  \cup (IF m.open > m.conns THEN {<<"connections-kept", m.open, m.conns>>} ELSE {})
  \cup (IF m.regs > m.terms THEN {<<"terminals-kept", m.regs, m.terms>>} ELSE {})
  \cup (IF Len(ms) < 2 THEN {} ELSE
        LET b == ms[Len(ms)] a == ms[Len(ms) - 1]
            g(x) == x.gor o(x) == x.objs k(x) == x.kib IN
        (IF Each(a, b, g, 1, 20, 8) /\ Each(b, m, g, 1, 20, 8) THEN {<<"goroutines", a.gor, b.gor, m.gor, m.cycles - a.cycles>>} ELSE {})
        \cup (IF Each(a, b, o, 1, 20, 120) /\ Each(b, m, o, 1, 20, 120) THEN {<<"objects", a.objs, b.objs, m.objs, m.cycles - a.cycles>>} ELSE {})
        \cup (IF Each(a, m, k, 1, 128, 64) /\ Each(b, m, k, 1, 256, 0) THEN {<<"memory", a.kib, b.kib, m.kib, m.cycles - a.cycles>>} ELSE {}))

Init == ti \in DOMAIN Traces /\ si = 1 /\ ms = <<>> /\ bad = {} /\ an = <<>>
Step == Traces[ti].steps[si]
Read  == an = <<>> /\ an' = <<0>> /\ UNCHANGED <<ti, si, ms, bad>>
Judge == /\ an # <<>> /\ bad' = Issues(Step) /\ ms' = Append(ms, Step)
         /\ an' = <<>> /\ si' = si + 1 /\ UNCHANGED ti
Next == bad = {} /\ si <= Len(Traces[ti].steps) /\ (Read \/ Judge)
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
