------------------------------- MODULE ListMC -------------------------------
(* Queries next to changes.  A device list, and a location answer (device     *)
(* and report), show one moment of the request.  OneLook: the query copies    *)
(* everything in one critical section; without it the property fails.         *)
EXTENDS Integers, FiniteSets
CONSTANTS Phones, Readers, MaxChg, OneLook
VARIABLES st,     \* phone -> 0 (not registered) or a version of what is known about it
          rp,     \* phone -> the version that came with the last report (0: none)
          pr, moments, chg
vars == <<st, rp, pr, moments, chg>>
Now == [p \in Phones |-> <<st[p], rp[p]>>]
Idle == [pc |-> "idle", op |-> "", p |-> 0, todo |-> {}, got |-> {}]
Init == st = [p \in Phones |-> 0] /\ rp = [p \in Phones |-> 0] /\ chg = 0
        /\ pr = [i \in Readers |-> Idle] /\ moments = [i \in Readers |-> {}]
Note == moments' = [i \in Readers |-> IF pr[i].pc = "idle" THEN {} ELSE moments[i] \cup {[p \in Phones |-> <<st'[p], rp'[p]>>]}]
Change(p) == /\ chg < MaxChg /\ chg' = chg + 1 /\ UNCHANGED pr
             /\ \/ st' = [st EXCEPT ![p] = chg + 1] /\ rp' = IF st[p] = 0 THEN [rp EXCEPT ![p] = 0] ELSE rp     \* registered, authenticated, ...
                \/ st[p] # 0 /\ st' = [st EXCEPT ![p] = chg + 1] /\ rp' = [rp EXCEPT ![p] = chg + 1]         \* a report
                \/ st[p] # 0 /\ st' = [st EXCEPT ![p] = 0] /\ rp' = [rp EXCEPT ![p] = 0]                     \* removed
             /\ Note
Ask(i, op, p) == /\ pr[i].pc = "idle"
                 /\ pr' = [pr EXCEPT ![i] = [pc |-> "look", op |-> op, p |-> p, todo |-> IF op = "list" THEN Phones \X {1, 2} ELSE {p} \X {1, 2}, got |-> {}]]
                 /\ moments' = [moments EXCEPT ![i] = {Now}] /\ UNCHANGED <<st, rp, chg>>
Look(i) == /\ pr[i].pc = "look" /\ UNCHANGED <<st, rp, chg, moments>>
           /\ IF OneLook THEN pr' = [pr EXCEPT ![i].pc = "answer", ![i].todo = {}, ![i].got = {<<x, Now[x[1]][x[2]]>> : x \in pr[i].todo}]
              ELSE \E x \in pr[i].todo : pr' = [pr EXCEPT ![i].todo = @ \ {x}, ![i].got = @ \cup {<<x, Now[x[1]][x[2]]>>},
                                                          ![i].pc = IF pr[i].todo = {x} THEN "answer" ELSE "look"]
Answer(i) == pr[i].pc = "answer" /\ pr' = [pr EXCEPT ![i] = Idle] /\ moments' = [moments EXCEPT ![i] = {}] /\ UNCHANGED <<st, rp, chg>>
Next == \/ \E p \in Phones : Change(p)
        \/ \E i \in Readers : Look(i) \/ Answer(i) \/ Ask(i, "list", 0) \/ \E p \in Phones : Ask(i, "geo", p)
Spec == Init /\ [][Next]_vars
OneMoment == \A i \in Readers : pr[i].pc = "answer" => \E m \in moments[i] : \A y \in pr[i].got : m[y[1][1]][y[1][2]] = y[2]
GeoWithDevice == \A p \in Phones : rp[p] # 0 => st[p] # 0 /\ rp[p] <= st[p]
=============================================================================
