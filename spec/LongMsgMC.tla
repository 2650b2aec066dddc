------------------------------ MODULE LongMsgMC ------------------------------
(***************************************************************************)
(* A sender, a bus on which fragments can get lost, be repeated or overtake  *)
(* each other, and a receiver.  Small sequence numbers make them wrap.       *)
(***************************************************************************)
EXTENDS LongMsg
CONSTANTS Ex, Lens, MaxMsgs, MaxFaults, Blen, Streams
VARIABLES s, ch, r, msgs, faults, done, part
\* msgs: accepted messages <<stream, bytes>>;  done: <<status, stream, bytes>>;  part: bytes reported as incomplete so far
vars == <<s, ch, r, msgs, faults, done, part>>
Cs == [ex |-> Ex, rctx |-> IF Ex THEN 2 ELSE 1, sctx |-> IF Ex THEN 2 ELSE 1, blen |-> Blen, crc |-> FALSE, delay |-> 20, tmo |-> 5000, subs |-> Streams \ {9}]
Init == s = New /\ ch = <<>> /\ r = New /\ msgs = <<>> /\ faults = 0 /\ done = <<>> /\ part = [k \in Streams |-> <<>>]

Msg(id, n) == [k \in 1..n |-> 10 * id + k]
SendMsg == \E st \in Streams, n \in Lens :
  /\ Len(msgs) < MaxMsgs /\ Accepts(Cs, s, st)
  /\ LET m == Msg(Len(msgs) + 1, n)
     IN /\ s' = StartSend(s, st, m) /\ msgs' = Append(msgs, <<st, m>>) /\ ch' = Append(ch, Header(Cs, st, m))
  /\ UNCHANGED <<r, faults, done, part>>
Refused == \E st \in Streams : ~Accepts(Cs, s, st) /\ UNCHANGED vars
Turn == \E i \in DOMAIN s.snd :
  /\ ch' = Append(ch, Frag(s.snd[i]))
  /\ s' = LET t == SendFrag(s, i) IN [t EXCEPT !.gap = AGECAP, !.snd = [k \in DOMAIN @ |-> [@[k] EXCEPT !.wait = 0]]]
  /\ UNCHANGED <<r, msgs, faults, done, part>>
\* what the receiver reports
Book(o) ==
  LET z == FoldLeft(LAMBDA a, x : LET b == SubSeq(x, 3, Len(x))
                                  IN IF x[1] = INCOMPLETE THEN [a EXCEPT !.p[x[2]] = @ \o b]
                                     ELSE [d |-> Append(a.d, <<x[1], x[2], a.p[x[2]] \o b>>), p |-> [a.p EXCEPT ![x[2]] = <<>>]],
                    [d |-> done, p |-> part], o.cb)
  IN done' = z.d /\ part' = z.p
Deliver == /\ ch # <<>>
           /\ LET o == Receive(Cs, r, Head(ch)) IN r' = o.s /\ Book(o)
           /\ ch' = Tail(ch) /\ UNCHANGED <<s, msgs, faults>>
Fault == /\ ch # <<>> /\ faults < MaxFaults /\ faults' = faults + 1
         /\ \/ ch' = Tail(ch)
            \/ ch' = <<Head(ch)>> \o ch
            \* overtaking, but not by the header of the next message
            \/ Len(ch) > 1 /\ Len(ch[2]) # 8 /\ ch' = <<ch[2], ch[1]>> \o SubSeq(ch, 3, Len(ch))
         /\ UNCHANGED <<s, r, msgs, done, part>>
Silence == /\ ch = <<>> /\ s.snd = <<>> /\ DOMAIN r.rcv # {}
           /\ LET t == Older(r, Cs.tmo + 1)
                  o == FoldLeft(TimeOut, [s |-> t, cb |-> <<>>], SetToSeq(Late(Cs, t)))
              IN r' = o.s /\ Book(o)
           /\ UNCHANGED <<s, ch, msgs, faults>>
Next == SendMsg \/ Turn \/ Deliver \/ Fault \/ Silence
Spec == Init /\ [][Next]_vars
Fairly == Spec /\ WF_vars(Turn) /\ WF_vars(Deliver) /\ WF_vars(Silence)

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* whatever happens on the bus, a message reported complete is one that was sent, on that stream
Intact == \A i \in DOMAIN done : done[i][1] = COMPLETE => \E k \in DOMAIN msgs : msgs[k] = <<done[i][2], done[i][3]>>
\* and each at most once (a repeated header and its fragments are one message)
Once == \A i, j \in DOMAIN done : (i # j /\ done[i][1] = COMPLETE /\ done[j][1] = COMPLETE) => done[i] # done[j]
\* anything else that was delivered is the beginning of what was sent
Beginning == \A i \in DOMAIN done : done[i][1] # COMPLETE => \E k \in DOMAIN msgs : msgs[k][1] = done[i][2] /\ Prefix(done[i][3], msgs[k][2])
Settled == ch = <<>> /\ s.snd = <<>> /\ DOMAIN r.rcv = {}
\* on a bus without faults, every message the receiver was free to take arrives
Arrives == (Settled /\ faults = 0) =>
             \A k \in DOMAIN msgs : (msgs[k][1] \in Cs.subs /\ (Ex => Len(msgs[k][2]) <= Blen) /\ (Ex \/ Cardinality(Cs.subs) = 1))
                                    => \E i \in DOMAIN done : done[i] = <<COMPLETE, msgs[k][1], msgs[k][2]>>
NotSubscribed == \A i \in DOMAIN done : done[i][2] \in Cs.subs
\* a single lost, repeated or overtaking fragment never goes unnoticed
Noticed == (Settled /\ Len(done) > 0) => \A i \in DOMAIN done : done[i][1] \in {COMPLETE, SEQERR, TIMEOUT, TRUNCATED}
Ends == []<>Settled
=============================================================================
