------------------------------ MODULE SerialMC ------------------------------
(* The serial numbers of what the platform originates on one connection:     *)
(* commands (from several HTTP requests) and acknowledgements of fragments   *)
(* (from the connection's reader) each take the next number, then write.     *)
(* M stands for 65536.  AtomicTake: reading and advancing the number is one   *)
(* step; without it the property fails.                                      *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, M, MaxReq, AtomicTake, Refuse
VARIABLES num, pr, taken, wire, left, lost
vars == <<num, pr, taken, wire, left, lost>>
Idle == [pc |-> "idle", n |-> 0]
Init == num = 0 /\ pr = [i \in Procs |-> Idle] /\ taken = <<>> /\ wire = <<>> /\ left = MaxReq /\ lost = 0
Start(i) == /\ pr[i].pc = "idle" /\ left > 0 /\ left' = left - 1 /\ pr' = [pr EXCEPT ![i].pc = "take"]
            /\ UNCHANGED <<num, taken, wire, lost>>
Take(i) == /\ pr[i].pc = "take" /\ UNCHANGED <<wire, left, lost>>
           /\ IF AtomicTake THEN /\ num' = (num + 1) % M /\ taken' = Append(taken, (num + 1) % M)
                                 /\ pr' = [pr EXCEPT ![i] = [pc |-> "write", n |-> (num + 1) % M]]
              ELSE pr' = [pr EXCEPT ![i] = [pc |-> "put", n |-> (num + 1) % M]] /\ UNCHANGED <<num, taken>>
Put(i) == /\ pr[i].pc = "put" /\ num' = pr[i].n /\ taken' = Append(taken, pr[i].n) /\ pr' = [pr EXCEPT ![i].pc = "write"]
          /\ UNCHANGED <<wire, left, lost>>
Write(i) == /\ pr[i].pc = "write" /\ pr' = [pr EXCEPT ![i] = Idle] /\ UNCHANGED <<num, taken, left>>
            /\ \/ wire' = Append(wire, pr[i].n) /\ lost' = lost
               \/ Refuse /\ lost' = lost + 1 /\ wire' = wire      \* cannot be encoded: its number is used up
Next == \E i \in Procs : Start(i) \/ Take(i) \/ Put(i) \/ Write(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* numbers are handed out one after another, wrapping around
Consecutive == \A k \in 1 .. Len(taken) : taken[k] = k % M
Quiet == \A i \in Procs : pr[i].pc = "idle"
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* when nothing is in progress, the numbers on the wire are those handed out, each as often (refused ones aside)
Block == Quiet => /\ Len(wire) + lost = Len(taken)
                  /\ \A x \in 0 .. M - 1 : Count(wire, x) <= Count(taken, x)
                  /\ ~Refuse => \A x \in 0 .. M - 1 : Count(wire, x) = Count(taken, x)
\* two frames with the same number are at least M numbers apart
Distinct == Len(taken) <= M => \A j, k \in DOMAIN wire : j # k => wire[j] # wire[k]
Finishes == <>[](left = 0 /\ Quiet)
=============================================================================
