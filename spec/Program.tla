------------------------------ MODULE Program ------------------------------
(* The server program: what its configuration and its surroundings decide.  *)
(* A configuration: the ports for terminals and for HTTP, the log level     *)
(* (0 debug .. 4 fatal), the destinations (console, file), the format.      *)
(* The surroundings: whether the configuration can be read, which ports     *)
(* somebody else has.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets

Levels == 0 .. 4
Ports(conf) == {conf.tcp, conf.http}
CanServe(conf, env) == env.readable /\ Ports(conf) \cap env.taken = {}
\* an entry of a level is written to a destination exactly when both are switched on
Logged(conf, sink, lv) == lv >= conf.level /\ (IF sink = "console" THEN conf.console ELSE conf.file)
Sinks == {"console", "file"}
\* of b backups the newest keep (at most), none older than age days
Kept(ages, keep, age) == LET young == SelectSeq(ages, LAMBDA a : a <= age) IN SubSeq(young, 1, IF Len(young) < keep THEN Len(young) ELSE keep)
=============================================================================
