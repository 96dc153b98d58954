----------------------------- MODULE ProgramMC -----------------------------
(* Starting the program while others may take ports: it reads its           *)
(* configuration, takes the port for terminals, then accepts terminals      *)
(* while it takes the port for HTTP; whatever it cannot have ends it.       *)
EXTENDS Program

CONSTANTS KeepMs, SlackMs, EndOnBind, EndOnRead
VARIABLES pc, bound, taken, readable, code, log, conf
vars == <<pc, bound, taken, readable, code, log, conf>>

Confs == [tcp : {1, 2}, http : {1, 2}, level : Levels, console : BOOLEAN, file : BOOLEAN]
Others == {1, 2}

Init == /\ pc = "start" /\ bound = {} /\ taken \in SUBSET Others /\ readable \in BOOLEAN /\ code = 0 /\ log = {}
        /\ conf \in {c \in Confs : c.tcp # c.http}
\* somebody else takes a free port, or gives one back, at any time
Take == \E p \in Others \ (taken \cup bound) : taken' = taken \cup {p} /\ UNCHANGED <<pc, bound, readable, code, log, conf>>
Give == \E p \in taken : taken' = taken \ {p} /\ UNCHANGED <<pc, bound, readable, code, log, conf>>
Say(lv) == log' = log \cup {<<s, lv>> : s \in {s \in Sinks : Logged(conf, s, lv)}}
End(c)  == pc' = "ended" /\ code' = c /\ bound' = {} /\ UNCHANGED <<taken, readable, conf>>
Read == pc = "start" /\ IF readable THEN pc' = "tcp" /\ Say(1) /\ UNCHANGED <<bound, taken, readable, code, conf>>
                        ELSE IF EndOnRead THEN End(2) /\ UNCHANGED log ELSE pc' = "tcp" /\ UNCHANGED <<bound, taken, readable, code, log, conf>>
Bind(from, port, to) ==
  /\ pc = from
  /\ IF port \notin taken THEN pc' = to /\ bound' = bound \cup {port} /\ Say(0) /\ UNCHANGED <<taken, readable, code, conf>>
     ELSE IF EndOnBind THEN End(1) /\ Say(3)
     ELSE pc' = to /\ Say(3) /\ UNCHANGED <<bound, taken, readable, code, conf>>
Start == Read \/ Bind("tcp", conf.tcp, "http") \/ Bind("http", conf.http, "serving")
Next == Take \/ Give \/ Start
Spec == Init /\ [][Next]_vars /\ WF_vars(Start)

Whole   == pc = "serving" => bound = Ports(conf) /\ readable
Ends    == pc = "ended" => code # 0 /\ bound = {}
Quietly == \A e \in log : Logged(conf, e[1], e[2])
Apart   == bound \cap taken = {}
Same    == conf.console /\ conf.file => \A lv \in Levels : (<<"console", lv>> \in log) = (<<"file", lv>> \in log)
Settles == <>[](pc \in {"serving", "ended"})
Serves  == [](readable /\ taken = {} /\ pc = "start" => <>(pc \in {"serving", "ended"}))
=============================================================================
