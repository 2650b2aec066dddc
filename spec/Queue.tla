------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* P16: the module's work queue.  Frames wait in the transport; the main    *)
(* loop (Process) takes the oldest unit of work from a bounded queue,       *)
(* offers it to the services - which may add replies - and lets the         *)
(* transport add at most one frame.  A unit put into a full queue displaces *)
(* the oldest one.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Cap, MaxItems, MaxReplies

VARIABLES rx,     \* frames in the transport: <<id, replies it will cause>>
          q,      \* units of work: <<"in", id, r>>, <<"out", id, j>>, <<"act">>
          cb,     \* ids of messages handed to the services, in order
          out,    \* <<id, j>> of messages sent, in order
          next,   \* id of the next arrival
          user,   \* ids of arrivals that are user actions
          lost    \* what was displaced, in order
vars == <<rx, q, cb, out, next, user, lost>>

Init == rx = <<>> /\ q = <<>> /\ cb = <<>> /\ out = <<>> /\ next = 1 /\ user = {} /\ lost = <<>>

\* put the units us into the queue of state w = [q, lost]
Put(w, us) == FoldLeft(LAMBDA a, u : IF Len(a.q) = Cap THEN [q |-> Append(Tail(a.q), u), lost |-> Append(a.lost, Head(a.q))]
                                     ELSE [q |-> Append(a.q, u), lost |-> a.lost], w, us)

Arrive(r) == /\ next <= MaxItems
             /\ rx' = Append(rx, <<next, r>>) /\ next' = next + 1
             /\ UNCHANGED <<q, cb, out, user, lost>>
UserAction == /\ next <= MaxItems
              /\ LET w == Put([q |-> q, lost |-> lost], <<<<"out", next, 1>>>>) IN q' = w.q /\ lost' = w.lost
              /\ next' = next + 1 /\ user' = user \cup {next}
              /\ UNCHANGED <<rx, cb, out>>
Process ==
  LET u == IF q = <<>> THEN <<"none">> ELSE Head(q)
      w0 == [q |-> IF q = <<>> THEN q ELSE Tail(q), lost |-> lost]
      w1 == CASE u[1] = "in" -> Put(w0, [j \in 1..u[3] |-> <<"out", u[2], j>>]) [] u[1] = "out" -> Put(w0, <<<<"act">>>>) [] OTHER -> w0
      w2 == IF rx = <<>> THEN w1 ELSE Put(w1, <<<<"act">>, <<"in", rx[1][1], rx[1][2]>>>>)
  IN /\ (rx # <<>> \/ q # <<>>)
     /\ q' = w2.q /\ lost' = w2.lost
     /\ rx' = IF rx = <<>> THEN rx ELSE Tail(rx)
     /\ cb' = IF u[1] = "in" THEN Append(cb, u[2]) ELSE cb
     /\ out' = IF u[1] = "out" THEN Append(out, <<u[2], u[3]>>) ELSE out
     /\ UNCHANGED <<next, user>>
Next == (\E r \in 0..MaxReplies : Arrive(r)) \/ UserAction \/ Process
Spec == Init /\ [][Next]_vars /\ WF_vars(Process)

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Class(ids) == SelectSeq(out, LAMBDA x : x[1] \in ids)
Ordered == /\ \A i, j \in DOMAIN cb : i < j => cb[i] < cb[j]
           /\ LET u == Class(user) IN \A i, j \in DOMAIN u : i < j => Before(u[i], u[j])
           /\ LET u == Class((1..MaxItems) \ user) IN \A i, j \in DOMAIN u : i < j => Before(u[i], u[j])
Once == Cardinality(Range(cb)) = Len(cb) /\ Cardinality(Range(out)) = Len(out)
Idle == rx = <<>> /\ q = <<>>
\* nothing is lost unless the queue was full, and then it is the oldest unit
NothingLost == (Idle /\ lost = <<>>) => /\ Range(cb) = (1..(next - 1)) \ user
                                        /\ \A i \in user : <<i, 1>> \in Range(out)
Bounded == Len(q) <= Cap
LossIsOldest == [][\A k \in (Len(lost) + 1)..Len(lost') : lost'[k] \in Range(q) \/ Len(q) < Cap]_vars
\* as long as a message causes at most one reply, the newest frame is always dealt with
NewestSurvives == (Idle /\ next > 1 /\ MaxReplies <= 1 /\ (next - 1) \notin user) => (next - 1) \in Range(cb)
Drains == []<>Idle
=============================================================================
