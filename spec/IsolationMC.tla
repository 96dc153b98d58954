---------------------------- MODULE IsolationMC -----------------------------
(* Connections and HTTP requests next to a bad peer.  Every connection has a *)
(* reader that handles one message after another: it takes the lock of what  *)
(* is shared, changes it, releases the lock, writes the reply.  A bad peer   *)
(* stops reading (its write blocks until a deadline or for ever) or sends    *)
(* what makes a handler fail.                                                *)
(*   Recover     a failing handler ends its connection only                  *)
(*   WriteFree   nothing shared is locked while a reply is written           *)
(*   Release     a failing handler releases the lock it holds                *)
(*   AcceptOn    accepting does not wait for a connection's handling         *)
(* Without any of them the property fails.                                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Good, Bad, MaxMsg, Recover, WriteFree, Release, AcceptOn
Conns == Good \cup Bad
VARIABLES up, st, todo, lock, opened, answered, stuck, web
vars == <<up, st, todo, lock, opened, answered, stuck, web>>
Init == /\ up = TRUE /\ st = [c \in Conns |-> "new"] /\ todo = [c \in Conns |-> MaxMsg] /\ lock = "free" /\ opened = {}
        /\ answered = [c \in Conns |-> 0] /\ stuck = {} /\ web = "idle"
Accept(c) == /\ up /\ st[c] = "new" /\ (AcceptOn \/ \A d \in Conns : st[d] \in {"new", "read", "closed"})
             /\ st' = [st EXCEPT ![c] = "read"] /\ opened' = opened \cup {c} /\ UNCHANGED <<up, todo, lock, answered, stuck, web>>
Take(c) == /\ up /\ st[c] = "read" /\ todo[c] > 0 /\ lock = "free" /\ lock' = c /\ st' = [st EXCEPT ![c] = "handle"]
           /\ todo' = [todo EXCEPT ![c] = @ - 1] /\ UNCHANGED <<up, opened, answered, stuck, web>>
Handle(c) == /\ up /\ st[c] = "handle" /\ st' = [st EXCEPT ![c] = "write"] /\ lock' = IF WriteFree THEN "free" ELSE lock
             /\ UNCHANGED <<up, todo, opened, answered, stuck, web>>
Crash(c) == /\ up /\ c \in Bad /\ st[c] = "handle" /\ UNCHANGED <<todo, opened, answered, stuck, web>>
            /\ IF Recover THEN up' = up /\ st' = [st EXCEPT ![c] = "closed"] /\ lock' = (IF Release THEN "free" ELSE lock)
               ELSE up' = FALSE /\ UNCHANGED <<st, lock>>
Write(c) == /\ up /\ st[c] = "write" /\ c \notin stuck /\ st' = [st EXCEPT ![c] = "read"] /\ answered' = [answered EXCEPT ![c] = @ + 1]
            /\ lock' = (IF lock = c THEN "free" ELSE lock) /\ UNCHANGED <<up, todo, opened, stuck, web>>
Stop(c) == c \in Bad /\ c \notin stuck /\ stuck' = stuck \cup {c} /\ UNCHANGED <<up, st, todo, lock, opened, answered, web>>
Leave(c) == /\ up /\ c \in Bad /\ st[c] = "read" /\ st' = [st EXCEPT ![c] = "closed"] /\ UNCHANGED <<up, todo, lock, opened, answered, stuck, web>>
Ask == up /\ web = "idle" /\ web' = "asked" /\ UNCHANGED <<up, st, todo, lock, opened, answered, stuck>>
Reply == up /\ web = "asked" /\ lock = "free" /\ web' = "idle" /\ UNCHANGED <<up, st, todo, lock, opened, answered, stuck>>
Next == \/ \E c \in Conns : Accept(c) \/ Take(c) \/ Handle(c) \/ Crash(c) \/ Write(c) \/ Stop(c) \/ Leave(c)
        \/ Ask \/ Reply
\* the server does what it can do; bad peers need not do anything.  A free lock goes round (no starvation).
Fair == /\ \A c \in Good : WF_vars(Accept(c)) /\ SF_vars(Take(c)) /\ WF_vars(Handle(c)) /\ WF_vars(Write(c))
        /\ \A c \in Bad : WF_vars(Accept(c)) /\ WF_vars(Handle(c) \/ Crash(c)) /\ WF_vars(Write(c))
        /\ SF_vars(Reply)
Spec == Init /\ [][Next]_vars /\ Fair
Up == up
GoodOpen == \A c \in Good : st[c] # "closed"
Answered == \A c \in Good : <>(answered[c] = MaxMsg)
Accepted == \A c \in Conns : <>(c \in opened)
WebAnswers == web = "asked" ~> web = "idle"
=============================================================================
