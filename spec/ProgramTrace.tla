---------------------------- MODULE ProgramTrace ---------------------------
(* Validation of runs of the real program: its configuration, what the      *)
(* surroundings were like, and what was seen of it.                         *)
(* A run: conf, env; ended, code; listens (ports); answers: a registration  *)
(* over TCP was answered; web: the device list over HTTP shows it; con,     *)
(* fil: number of log entries per level on the console and in the file(s);  *)
(* json, plain: entries of the file in one and the other format; made: the  *)
(* log file exists; a frame with a wrong check code was sent (an error).    *)
(* roll: 0, or so many KiB were logged with files of at most conf.size MiB; *)
(* files, largest (KiB); old: an old backup (age in days) is still there.   *)
(* banner: the text of the banner file was printed; kept: entries of an     *)
(* earlier run in the same place are still in the file; empty: no device    *)
(* was listed before the first terminal came; seen: levels of the entries   *)
(* an earlier run at level debug made of the same happenings.               *)
EXTENDS Program, Json, IOUtils, TLC, FiniteSetsExt, SequencesExt

CONSTANTS KeepMs, SlackMs
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Prop   == IOEnv.VERIF_PROP
VARIABLES ti, si, bad, an
vars == <<ti, si, bad, an>>

Elems(s) == {s[i] : i \in DOMAIN s}
Count(r, sink) == IF sink = "console" THEN r.con ELSE r.fil
LogIssues(r) ==
  LET c == r.conf IN
  UNION {{<<"logged", s, lv, Count(r, s)[lv + 1]>> : lv \in {lv \in Levels : Count(r, s)[lv + 1] > 0 /\ ~Logged(c, s, lv)}} : s \in Sinks}
  \cup {<<"not-logged", s, lv>> : <<s, lv>> \in {x \in Sinks \X ({0, 1, 3} \cup Elems(r.seen)) : Logged(c, x[1], x[2]) /\ Count(r, x[1])[x[2] + 1] = 0 /\ (r.roll = 0 \/ x[1] = "console")}}
  \cup (IF c.console /\ c.file /\ r.roll = 0 /\ r.con # r.fil THEN {<<"destinations-differ", r.con, r.fil>>} ELSE {})
  \cup (IF (c.json /\ r.plain > 0) \/ (~c.json /\ r.json > 0) THEN {<<"format", r.json, r.plain>>} ELSE {})
  \cup (IF ~r.kept /\ r.roll = 0 THEN {<<"earlier-entries-lost">>} ELSE {})
  \cup (IF r.banner # (c.banner /\ c.bannerfile) THEN {<<"banner", r.banner>>} ELSE {})
  \cup (IF r.made /\ ~r.again /\ ~c.file THEN {<<"file-made">>} ELSE {})

RollIssues(r) ==
  LET c == r.conf IN
  IF r.roll = 0 THEN {} ELSE
  (IF r.files > c.backups + 1 THEN {<<"too-many-files", r.files>>} ELSE {})
  \cup (IF r.largest > c.size * 1024 + 8 THEN {<<"file-too-large", r.largest>>} ELSE {})
  \cup (IF r.old /\ r.oldage > c.age THEN {<<"old-file-kept", r.oldage>>} ELSE {})
  \* so few files that none had to go: the old one included
  \cup (IF ~r.old /\ r.oldage <= c.age /\ r.files < c.backups + 1 THEN {<<"file-lost", r.files>>} ELSE {})
  \cup (IF r.files < Min({c.backups + 1, r.roll \div (c.size * 1024)}) THEN {<<"entries-lost", r.files, r.roll>>} ELSE {})

Issues(r) ==
  LET env == [readable |-> r.env.readable, taken |-> Elems(r.env.taken)] IN
  IF ~CanServe(r.conf, env) THEN (IF r.ended /\ r.code # 0 THEN {} ELSE {<<"serves-without", r.listens, r.code>>})
  ELSE (IF r.ended THEN {<<"ended", r.code>>} ELSE {})
       \cup (IF ~r.everywhere THEN {<<"not-reachable-everywhere">>} ELSE {})
       \cup (IF Ports(r.conf) # Elems(r.listens) THEN {<<"not-listening", r.listens, Ports(r.conf)>>} ELSE {})
       \cup (IF ~r.answers THEN {<<"terminal-not-answered">>} ELSE {})
       \cup (IF ~r.web THEN {<<"http-not-answered">>} ELSE {})
       \cup (IF ~r.empty THEN {<<"listed-before-anyone-came">>} ELSE {})
       \cup LogIssues(r) \cup RollIssues(r)

Init == ti \in DOMAIN Traces /\ si = 1 /\ bad = {} /\ an = <<>>
Step == Traces[ti].steps[si]
Read  == an = <<>> /\ an' = <<0>> /\ UNCHANGED <<ti, si, bad>>
Judge == an # <<>> /\ bad' = Issues(Step) /\ an' = <<>> /\ si' = si + 1 /\ UNCHANGED ti
Next == bad = {} /\ si <= Len(Traces[ti].steps) /\ (Read \/ Judge)
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
