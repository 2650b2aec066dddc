----------------------------- MODULE LongMsgTour -----------------------------
(* The transition graph of one service under a small set of stimuli, at real  *)
(* sizes, for replay on the implementation.                                   *)
EXTENDS LongMsg, Json, IOUtils
Edges == IOEnv.EDGES = "1"
Fam == IOEnv.FAM
Ex == Fam \in {"exsend", "exrecv"}
Sending == Fam \in {"send", "exsend"}
C == [ex |-> Ex, rctx |-> IF Ex THEN 2 ELSE 1, sctx |-> IF Ex THEN 2 ELSE 1, blen |-> IF Fam = "recv" THEN 6 ELSE 8, crc |-> Fam = "exrecv",
      delay |-> 20, tmo |-> 100, subs |-> {1, 2}]
VARIABLE s
HexD == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex(b) == HexD[(b \div 16) + 1] \o HexD[(b % 16) + 1]
HexS(bs) == FoldLeft(LAMBDA a, b : a \o Hex(b), "", bs)
Msgs == IF Ex THEN {<<65, 66>>, <<1, 2, 3, 4, 5, 0>>} ELSE {<<65>>, <<1, 2, 3, 4, 5, 0>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>}
HeadersB == {<<OPC, st, 0, 0, n, 0, 0, 0>> : st \in {1, 2}, n \in {3, 5, 8}} \cup {<<OPC, 7, 0, 0, 3, 0, 0, 0>>, <<OPC, 1, 0, 0, 3, 0, 0, 1>>, <<OPC, 2, 0, 0, 0 + 13, 0, 0, 0>>}
HeadersX == {<<OPC, st, 0, 0, n, 0, 0, 0>> : st \in {1, 2}, n \in {3, 8, 9}} \cup {<<OPC, 1, 0, 0, 3, Crc16(<<9, 9, 9>>) \div 256, Crc16(<<9, 9, 9>>) % 256, 0>>, <<OPC, 1, 0, 0, 3, 5, 6, 0>>, <<OPC, 2, 0, 0, 3, 0, 0, 8>>, <<OPC, 3, 0, 0, 3, 0, 0, 0>>}
Frags == {<<OPC, st, q, 9, 9, 9, 9, 9>> : st \in {1, 2}, q \in 1..3} \cup {<<OPC, 7, 1, 9, 9, 9, 9, 9>>}
\* one turn: the message that has waited longest sends
Turn(ms) ==
  LET s0 == Older(s, ms)
      o == FoldLeft(TimeOut, [s |-> s0, cb |-> <<>>], SetToSeq(Late(C, s0)))
      e == {i \in DOMAIN o.s.snd : May(C, o.s, o.s.snd[i])}
      n == CHOOSE a \in e : \A j \in e : o.s.snd[a].age > o.s.snd[j].age \/ (o.s.snd[a].age = o.s.snd[j].age /\ a <= j)
      t == IF e = {} THEN o.s ELSE SendFrag(o.s, n)
  IN [t EXCEPT !.gap = IF ~Sending \/ Ex \/ @ > 20 THEN AGECAP ELSE @, !.snd = [k \in DOMAIN @ |-> [@[k] EXCEPT !.wait = 0, !.age = IF @ > 40 THEN 40 ELSE @]],
               !.rcv = [k \in DOMAIN @ |-> [@[k] EXCEPT !.age = IF @ > 150 THEN 150 ELSE @]]]
Stim == IF Sending THEN {<<"Z", st, m>> : st \in {1, 2}, m \in Msgs} \cup {<<"P", 0>>, <<"W", 10>>, <<"W", 21>>}
        ELSE {<<"R", d>> : d \in (IF Ex THEN HeadersX ELSE HeadersB) \cup Frags} \cup {<<"W", 60>>, <<"W", 101>>}
After(e) == CASE e[1] = "Z" -> IF Accepts(C, s, e[2]) THEN StartSend(s, e[2], e[3]) ELSE s
              [] e[1] = "R" -> Receive(C, s, e[2]).s
              [] OTHER -> Turn(e[2])
Line(e) == CASE e[1] = "Z" -> "Z " \o ToString(e[2]) \o " " \o HexS(e[3]) [] e[1] = "R" -> "R " \o HexS(e[2]) [] e[1] = "P" -> "P" [] OTHER -> "W " \o ToString(e[2])
Abs(x) == ToString(<<[i \in DOMAIN x.snd |-> <<x.snd[i].st, x.snd[i].m, x.snd[i].pos, x.snd[i].seq, x.snd[i].age, x.snd[i].wait>>],
                     [i \in 1..2 |-> IF i \in DOMAIN x.rcv THEN <<x.rcv[i].buf, x.rcv[i].got, x.rcv[i].len, x.rcv[i].age, x.rcv[i].crc, x.rcv[i].seq>> ELSE <<>>], x.gap>>)
Pre == <<IF Ex THEN "N x 2 8 2 " \o (IF C.crc THEN "1" ELSE "0") ELSE "N b", "D 20", "O 100", "U " \o ToString(C.blen) \o " 1 2">>
Init == s = New /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs(New), pre |-> Pre])) ELSE TRUE
Next == \E e \in Stim : LET n == After(e) IN s' = n /\ IF Edges THEN PrintT("EDGE " \o ToJson(<<Abs(s), Line(e), Abs(n)>>)) ELSE TRUE
Spec == Init /\ [][Next]_s
OneEach == \A i, j \in DOMAIN s.snd : i # j => s.snd[i].st # s.snd[j].st
Limits == Len(s.snd) <= C.sctx /\ Cardinality(DOMAIN s.rcv) <= C.rctx /\ \A k \in DOMAIN s.rcv : Len(s.rcv[k].buf) < C.blen /\ s.rcv[k].got < s.rcv[k].len
=============================================================================
