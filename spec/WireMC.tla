------------------------------- MODULE WireMC -------------------------------
(* Writers on one connection: each encodes its frame into a buffer, then     *)
(* hands it to the connection.  OwnBuffer: every encoding has its own         *)
(* buffer.  WholeWrite: a frame is written by one call under the             *)
(* connection's write lock.  Without either the property fails.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Size, MaxReq, OwnBuffer, WholeWrite
VARIABLES buf, pr, wire, left, sent, failed
vars == <<buf, pr, wire, left, sent, failed>>
\* the bytes of frame n are <<n, 1>>, ..., <<n, Size>>
Idle == [pc |-> "idle", n |-> 0, k |-> 0]
Key(i) == IF OwnBuffer THEN i ELSE CHOOSE x \in Procs : TRUE
Init == buf = [i \in Procs |-> <<>>] /\ pr = [i \in Procs |-> Idle] /\ wire = <<>> /\ left = MaxReq /\ sent = {} /\ failed = FALSE
Start(i) == /\ pr[i].pc = "idle" /\ left > 0 /\ left' = left - 1
            /\ pr' = [pr EXCEPT ![i] = [pc |-> "encode", n |-> left, k |-> 0]] /\ buf' = [buf EXCEPT ![Key(i)] = <<>>]
            /\ UNCHANGED <<wire, sent, failed>>
Encode(i) == /\ pr[i].pc = "encode" /\ buf' = [buf EXCEPT ![Key(i)] = Append(@, <<pr[i].n, pr[i].k + 1>>)]
             /\ pr' = [pr EXCEPT ![i].k = IF @ + 1 = Size THEN 0 ELSE @ + 1, ![i].pc = IF pr[i].k + 1 = Size THEN "write" ELSE "encode"]
             /\ UNCHANGED <<wire, left, sent, failed>>
Write(i) == /\ pr[i].pc = "write" /\ UNCHANGED <<buf, left, failed>>
            /\ LET b == buf[Key(i)] IN
               IF failed THEN wire' = wire /\ pr' = [pr EXCEPT ![i] = Idle] /\ sent' = sent
               ELSE IF WholeWrite THEN wire' = wire \o b /\ pr' = [pr EXCEPT ![i] = Idle] /\ sent' = sent \cup {pr[i].n}
               ELSE /\ pr[i].k < Len(b) /\ wire' = Append(wire, b[pr[i].k + 1])
                    /\ pr' = [pr EXCEPT ![i] = IF pr[i].k + 1 = Len(b) THEN Idle ELSE [@ EXCEPT !.k = @ + 1]]
                    /\ sent' = IF pr[i].k + 1 = Len(b) THEN sent \cup {pr[i].n} ELSE sent
\* the peer is gone: what follows is not written
Fail == ~failed /\ failed' = TRUE /\ UNCHANGED <<buf, pr, wire, left, sent>>
Next == Fail \/ \E i \in Procs : Start(i) \/ Encode(i) \/ Write(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Frame(n) == [k \in 1 .. Size |-> <<n, k>>]
\* the wire is a sequence of whole frames, each once, and nothing that was sent is missing
Whole == LET q == Len(wire) \div Size
             at(j) == wire[(j - 1) * Size + 1][1]
         IN  /\ Len(wire) % Size = 0
             /\ \A j \in 1 .. q : SubSeq(wire, (j - 1) * Size + 1, j * Size) = Frame(at(j))
             /\ \A j, k \in 1 .. q : j # k => at(j) # at(k)
             /\ {at(j) : j \in 1 .. q} = sent
Complete == (left = 0 /\ ~failed /\ \A i \in Procs : pr[i].pc = "idle") => sent = 1 .. MaxReq
Ends == <>[](left = 0 /\ \A i \in Procs : pr[i].pc = "idle")
=============================================================================
