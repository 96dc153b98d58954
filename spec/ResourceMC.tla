----------------------------- MODULE ResourceMC -----------------------------
(* What the server holds for its peers: a session (with its goroutine) per  *)
(* connection, and per registration a table entry, a check job, a last      *)
(* location and unfinished fragments.  Whatever comes and goes, each of     *)
(* these has an owner that is there now (a job may outlive its registration *)
(* until its next run), and when nothing more happens and the peers are     *)
(* gone, nothing is left.  Each precaution can be left out.                 *)
EXTENDS Naturals, FiniteSets

CONSTANTS Phones, Conns, MaxReg, MaxConn,
          ClearSession,   \* a session that ends is forgotten
          EndOnError,     \* a connection that fails or is cut off ends its session
          DropGeo,        \* the location goes with the registration
          DropFrag,       \* so do its unfinished fragments
          OwnFrag,        \* no fragments are kept for a phone that is not registered
          JobEnds,        \* a job that finds its registration gone ends itself
          Expires         \* a silent registration is removed

VARIABLES conn,    \* connections: name -> "none", "open", "left" (by the peer), "cut" (by the server)
          sess,    \* sessions held: set of <<name, number>>
          made,    \* connections so far, per name the number of the latest
          reg,     \* phone -> number of its registration; 0: none
          regs,    \* registrations so far
          jobs,    \* registrations with a check job
          geo,     \* registrations with a location
          frag     \* <<phone, registration>> with unfinished fragments
vars == <<conn, sess, made, reg, regs, jobs, geo, frag>>

Init == /\ conn = [c \in Conns |-> "none"] /\ sess = {} /\ made = [c \in Conns |-> 0]
        /\ reg = [p \in Phones |-> 0] /\ regs = 0 /\ jobs = {} /\ geo = {} /\ frag = {}

Total == LET s[S \in SUBSET Conns] == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN made[c] + s[S \ {c}] IN s[Conns]
Connect(c) == /\ conn[c] = "none" /\ Total < MaxConn
              /\ conn' = [conn EXCEPT ![c] = "open"] /\ made' = [made EXCEPT ![c] = @ + 1]
              /\ sess' = sess \cup {<<c, made[c] + 1>>} /\ UNCHANGED <<reg, regs, jobs, geo, frag>>
Leave(c)   == /\ conn[c] = "open" /\ conn' = [conn EXCEPT ![c] = "left"] /\ UNCHANGED <<sess, made, reg, regs, jobs, geo, frag>>
\* the server notices the end of a connection, or ends it
End(c)     == /\ conn[c] \in {"left", "cut"} /\ EndOnError
              /\ conn' = [conn EXCEPT ![c] = "none"]
              /\ sess' = IF ClearSession THEN sess \ {<<c, made[c]>>} ELSE sess
              /\ UNCHANGED <<made, reg, regs, jobs, geo, frag>>
Live == \E c \in Conns : conn[c] = "open"
Register(p) == /\ Live /\ reg[p] = 0 /\ regs < MaxReg
               /\ regs' = regs + 1 /\ reg' = [reg EXCEPT ![p] = regs + 1] /\ jobs' = jobs \cup {regs + 1}
               /\ UNCHANGED <<conn, sess, made, geo, frag>>
Report(p)   == /\ Live /\ reg[p] > 0 /\ geo' = geo \cup {reg[p]} /\ UNCHANGED <<conn, sess, made, reg, regs, jobs, frag>>
Piece(p)    == /\ Live /\ (reg[p] > 0 \/ ~OwnFrag)
               /\ frag' = frag \cup {<<p, reg[p]>>} /\ UNCHANGED <<conn, sess, made, reg, regs, jobs, geo>>
Stranger(c) == /\ conn[c] = "open" /\ conn' = [conn EXCEPT ![c] = "cut"] /\ UNCHANGED <<sess, made, reg, regs, jobs, geo, frag>>
Gone(p, jobToo) ==
  /\ reg' = [reg EXCEPT ![p] = 0]
  /\ geo' = IF DropGeo THEN geo \ {reg[p]} ELSE geo
  /\ frag' = IF DropFrag THEN {f \in frag : f[1] # p} ELSE frag
  /\ jobs' = IF jobToo THEN jobs \ {reg[p]} ELSE jobs
  /\ UNCHANGED <<conn, sess, made, regs>>
\* deregistration or a wrong code; the job is cancelled, or (cancelled before it was added) runs once more
Remove(p)  == /\ Live /\ reg[p] > 0 /\ \E j \in BOOLEAN : Gone(p, j)
Expire(p)  == /\ reg[p] > 0 /\ Expires /\ reg[p] \in jobs /\ Gone(p, TRUE)
Job(j)     == /\ j \in jobs /\ ~\E p \in Phones : reg[p] = j
              /\ JobEnds /\ jobs' = jobs \ {j} /\ UNCHANGED <<conn, sess, made, reg, regs, geo, frag>>

Next == \/ \E c \in Conns : Connect(c) \/ Leave(c) \/ End(c) \/ Stranger(c)
        \/ \E p \in Phones : Register(p) \/ Report(p) \/ Piece(p) \/ Remove(p) \/ Expire(p)
        \/ \E j \in jobs : Job(j)
Spec == Init /\ [][Next]_vars
        /\ \A c \in Conns : WF_vars(End(c)) /\ WF_vars(Leave(c))
        /\ \A p \in Phones : WF_vars(Expire(p))
        /\ \A j \in 1 .. MaxReg : WF_vars(Job(j))

Current == {reg[p] : p \in Phones} \ {0}
\* C22: everything held has an owner
SessOwned == \A s \in sess : conn[s[1]] # "none" /\ s[2] = made[s[1]]
GeoOwned  == geo \subseteq Current
FragOwned == \A f \in frag : f[2] # 0 /\ reg[f[1]] = f[2]
OneJob    == Current \subseteq jobs
\* C22: in the end nothing is left (every peer leaves; registrations and connections are finite here)
AllGone   == <>[](sess = {} /\ jobs = {} /\ geo = {} /\ frag = {} /\ Current = {})
=============================================================================
