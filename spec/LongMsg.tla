------------------------------- MODULE LongMsg -------------------------------
(***************************************************************************)
(* P17-P19: sending and receiving long messages (RFC 0005), for the service  *)
(* that handles one message at a time and the one that handles several.      *)
(*                                                                          *)
(*   c   ex (several at a time), rctx, sctx (how many), blen (receive        *)
(*       buffer), crc (checked and sent), delay, tmo, subs (streams)         *)
(*   s   snd: messages being sent, oldest first                              *)
(*       rcv: stream -> message being received                               *)
(* Which of several messages sends its next fragment first is left open, but *)
(* none may be passed over for ever.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Bitwise
CONSTANTS Mod,      \* sequence numbers are counted modulo Mod (256)
          Pay       \* bytes per fragment (5)

INCOMPLETE == 0  COMPLETE == 1  SEQERR == 2  TIMEOUT == 3  CRCERR == 4  TRUNCATED == 5
OPC == 233
AGECAP == 100000

\* ---------------------------------------------------------------- CRC 16
RECURSIVE Bits(_, _)
Bits(x, n) == IF n = 0 THEN x ELSE Bits(IF x % 2 = 1 THEN (x \div 2) ^^ 33800 ELSE x \div 2, n - 1)
CrcTable == [b \in 0..255 |-> Bits(b, 8)]
Crc16(m) == LET r == FoldLeft(LAMBDA a, b : (a \div 256) ^^ CrcTable[(a % 256) ^^ b], 65535, m)
                n == 65535 - r
            IN IF m = <<>> THEN 0 ELSE (n % 256) * 256 + n \div 256

New == [snd |-> <<>>, rcv |-> <<>>, gap |-> AGECAP]     \* gap: time since a fragment was last sent
Zeros(n) == [i \in 1..n |-> 0]
Header(c, st, m) == LET k == IF c.crc THEN Crc16(m) ELSE 0
                    IN <<OPC, st, 0, Len(m) \div 256, Len(m) % 256, k \div 256, k % 256, 0>>

\* --------------------------------------------------------------- sending
Accepts(c, s, st) == IF c.ex THEN Len(s.snd) < c.sctx /\ \A i \in DOMAIN s.snd : s.snd[i].st # st ELSE s.snd = <<>>
StartSend(s, st, m) == [s EXCEPT !.snd = Append(@, [st |-> st, m |-> m, pos |-> 0, seq |-> 1 % Mod, age |-> 0, wait |-> 0])]
\* the next fragment of message x
Frag(x) == LET n == IF Len(x.m) - x.pos < Pay THEN Len(x.m) - x.pos ELSE Pay
           IN <<OPC, x.st, x.seq>> \o SubSeq(x.m, x.pos + 1, x.pos + n) \o Zeros(Pay - n)
\* (fragments keep their distance, also from those of the message before; with several at a time, each message paces itself)
May(c, s, x) == IF x.pos = 0 THEN c.ex \/ s.gap >= c.delay ELSE x.age >= c.delay
Must(c, x) == x.age > (IF x.pos = 0 THEN 2 * c.delay ELSE c.delay)   \* (the first may be paced against an earlier message)
Sent(x) == [x EXCEPT !.pos = @ + Pay, !.seq = (@ + 1) % Mod, !.age = 0, !.wait = -1]
\* message i of s sends a fragment
SendFrag(s, i) == LET y == Sent(s.snd[i])
                  IN [s EXCEPT !.gap = 0, !.snd = IF y.pos >= Len(y.m) THEN RemoveAt(@, i) ELSE [@ EXCEPT ![i] = y]]
\* at the end of a turn: those that could have sent and did not have waited one turn more
Waited(c, s) == [s EXCEPT !.snd = [i \in DOMAIN @ |-> [@[i] EXCEPT !.wait = IF Must(c, s.snd[i]) THEN @ + 1 ELSE 0]]]
Patience(c) == IF c.ex THEN c.sctx ELSE 0
Fair(c, s) == \A i \in DOMAIN s.snd : s.snd[i].wait <= Patience(c)
Older(s, ms) == LET old(a) == IF a + ms > AGECAP THEN AGECAP ELSE a + ms
                IN [gap |-> old(s.gap), snd |-> [i \in DOMAIN s.snd |-> [s.snd[i] EXCEPT !.age = old(@)]],
                    rcv |-> [k \in DOMAIN s.rcv |-> [s.rcv[k] EXCEPT !.age = old(@)]]]

\* ------------------------------------------------------------- receiving
\* o: [s, cb]; cb: <<status, stream, bytes...>> reported
Drop(o, st) == [o EXCEPT !.s.rcv = [k \in DOMAIN @ \ {st} |-> @[k]]]
Report(o, st, status) == [o EXCEPT !.cb = Append(@, <<status, st>> \o o.s.rcv[st].buf)]
End(o, st, status) == Drop(Report(o, st, status), st)
Late(c, s) == {k \in DOMAIN s.rcv : s.rcv[k].age > c.tmo}
MayBeLate(c, s) == {k \in DOMAIN s.rcv : s.rcv[k].age >= c.tmo}
TimeOut(o, st) == End(o, st, TIMEOUT)

Begin(o, d) == [o EXCEPT !.s.rcv = (d[2] :> [len |-> d[4] * 256 + d[5], crc |-> d[6] * 256 + d[7], got |-> 0, buf |-> <<>>, seq |-> 1 % Mod, age |-> 0]) @@ @]

RECURSIVE Take(_, _, _, _)
Take(c, o, st, bytes) ==
  IF bytes = <<>> THEN o
  ELSE LET o1 == [o EXCEPT !.s.rcv[st].buf = Append(@, Head(bytes)), !.s.rcv[st].got = @ + 1]
           x == o1.s.rcv[st]
       IN IF x.got >= x.len THEN End(o1, st, IF c.crc /\ x.crc # 0 /\ x.crc # Crc16(x.buf) THEN CRCERR ELSE COMPLETE)
          ELSE IF Len(x.buf) >= c.blen
               THEN IF c.ex THEN End(o1, st, TRUNCATED) ELSE Take(c, [Report(o1, st, INCOMPLETE) EXCEPT !.s.rcv[st].buf = <<>>], st, Tail(bytes))
               ELSE Take(c, o1, st, Tail(bytes))

Fragment(c, o, d) ==
  LET st == d[2]
  IN IF d[3] # o.s.rcv[st].seq THEN End(o, st, SEQERR)
     ELSE Take(c, [o EXCEPT !.s.rcv[st].seq = (@ + 1) % Mod, !.s.rcv[st].age = 0], st, SubSeq(d, 4, Len(d)))

Receive(c, s, d) ==
  LET o == [s |-> s, cb |-> <<>>]   st == d[2]
      header == d[3] = 0 /\ Len(d) >= 8
  IN IF Len(d) < 3 \/ d[1] # OPC THEN o
     ELSE IF st \in DOMAIN s.rcv
     THEN IF c.ex /\ header /\ s.rcv[st].seq # 0
          THEN IF d[8] = 0 THEN Begin(End(o, st, SEQERR), d) ELSE o
          ELSE Fragment(c, o, d)
     ELSE IF header /\ d[8] = 0 /\ st \in c.subs /\ Cardinality(DOMAIN s.rcv) < c.rctx THEN Begin(o, d)
     ELSE o
=============================================================================
