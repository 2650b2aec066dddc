------------------------------ MODULE NodeBus ------------------------------
(* N modules, each a Node, on one bus.  A module's frames wait in its own      *)
(* queue; any module's first frame may win the bus, then all others have it;    *)
(* each module takes what it received in order, whenever it gets to run.        *)
(* FAM setup: buttons and node numbers (P30).  FAM canid: CANIDs (P31).         *)
EXTENDS Node, Bus, Json, IOUtils
CONSTANTS N, MaxPress, MaxAsk
Fam == IOEnv.FAM
WithCan == IOEnv.CAN = "1"
Edges == IOEnv.EDGES = "1"
C == [nvs |-> 0, maxev |-> 1, evs |-> 1, prod |-> 0, ch |-> 1, ph |-> 1, crash |-> 0, base |-> 0, bs |-> 0, bm |-> 0, maj |-> 1, min |-> 97, beta |-> 0,
      manu |-> 13, mtyp |-> 7, cpuman |-> 2, cpuid |-> 50, name |-> <<78, 65, 77, 69, 32, 32, 32>>, cpu |-> <<63, 63, 63, 63>>,
      sv |-> IF WithCan THEN <<"M", "C", "U">> ELSE <<"M", "U">>]
VARIABLES s, bus, inb, press, asks, takers, v, spoken, turn
\* takers: who took the node number being given; v: the view of Bus; spoken: who has sent a message, one after the other; turn: whose turn it is
vars == <<s, bus, inb, press, asks, takers, v, spoken, turn>>
Nodes == 1..N
Plain(x) == [x EXCEPT !.shb = 0, !.up = 0, !.chg = 0, !.seq = 0]
Two(n) == <<Hi(n), Lo(n)>>
Fr(id, r, d) == [id |-> id, x |-> 0, r |-> r, d |-> d]
Frames(o) == [k \in DOMAIN o.dx |-> Fr(1408 + o.s.canid, o.dx[k], <<>>)] \o [k \in DOMAIN o.tx |-> Fr(1408 + o.s.canid, 0, o.tx[k])]
Settled == \A i \in Nodes : bus[i] = <<>> /\ inb[i] = <<>>
Enumerating == {i \in Nodes : s[i].enm.on}
Q(q) == [k \in DOMAIN q |-> <<q[k].id, q[k].r, q[k].d>>]
Abs == ToString(<<[i \in Nodes |-> <<s[i].mode, s[i].cur, s[i].canid, s[i].nn, s[i].enm.on, s[i].enm.el, SetToSortSeq(s[i].enm.ids, LAMBDA a, b : a < b), s[i].enm.ack>>], [i \in Nodes |-> <<Q(bus[i]), Q(inb[i])>>]>>)
Small == FoldLeft(LAMBDA a, i : a + Len(bus[i]) + Len(inb[i]), 0, [i \in 1..N |-> i]) <= IF Fam = "setup" THEN 2 ELSE 4
Note(line) == IF Edges THEN (IF Small' THEN PrintT("EDGE " \o ToJson(<<Abs, line, Abs'>>)) ELSE TRUE) ELSE TRUE

Canids == IF Fam = "canid" THEN {f \in [Nodes -> 0..2] : Edges => f = [i \in Nodes |-> 1]} ELSE {[i \in Nodes |-> i]}
Modes == IF Fam = "canid" THEN {[i \in Nodes |-> NORMAL]} ELSE {f \in [Nodes -> {NORMAL, UNINIT}] : Edges => f = [i \in Nodes |-> IF i = 1 THEN NORMAL ELSE UNINIT]}
View1(x) == [mode |-> x.cur, canid |-> x.canid, nn |-> x.nn, stored |-> x.mode, enum |-> FALSE, alone |-> FALSE, el |-> 0]
Hex2(b) == LET H(k) == SubSeq("0123456789ABCDEF", k + 1, k + 1) IN H(b \div 16) \o H(b % 16)
Pre == FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..N |-> <<"C nvs=0 maxev=1 evs=1 prod=0 ch=1 ph=1 crash=0 multi=1 svcs=M,C,U">> \o IF s[i].mode = NORMAL THEN <<"S 0 01" \o Hex2(s[i].canid) \o "00" \o Hex2(s[i].nn) \o "0000">> ELSE <<>>])
Init == /\ \E f \in Canids, m \in Modes : s = [i \in Nodes |-> Boot(C, [ResetStore(C) EXCEPT !.mode = m[i], !.canid = IF m[i] = NORMAL THEN f[i] ELSE 0, !.nn = IF m[i] = NORMAL THEN i ELSE 0, !.rst = FALSE])]
        /\ bus = [i \in Nodes |-> <<>>] /\ inb = [i \in Nodes |-> <<>>] /\ press = 0 /\ asks = 0 /\ takers = {} /\ spoken = {} /\ turn = 0
        /\ v = [i \in Nodes |-> View1(s[i])]
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs, pre |-> Pre \o <<"B", "G 1">>])) ELSE TRUE

\* node i deals with a stimulus; q: the queues of received frames
Does(i, st, q) ==
  LET o == Step(C, s[i], st, <<>>)
      n == Plain(o.s)
      w == [v EXCEPT ![i].mode = n.cur, ![i].canid = n.canid, ![i].nn = n.nn, ![i].stored = n.mode]
      ended == v[i].enum /\ ~n.enm.on
      moved == n.canid # s[i].canid /\ ~ended
      w1 == IF 1 \in Range(o.dx) THEN Starts(w, i) ELSE IF moved THEN Disturbed(w) ELSE w
  IN /\ s' = [s EXCEPT ![i] = n]
     /\ bus' = [bus EXCEPT ![i] = @ \o Frames(o)]
     /\ inb' = q
     /\ v' = (IF ended THEN [w1 EXCEPT ![i].enum = FALSE] ELSE w1)
Press(i, a) == /\ press < MaxPress /\ press' = (IF Edges THEN 0 ELSE press + 1)
               /\ (Fam = "setup" => takers = {} \/ Settled) /\ (Fam = "canid" => Settled /\ Enumerating = {})
               /\ Does(i, [k |-> "A", dt |-> 0, a |-> <<a>>], inb) /\ takers' = {} /\ UNCHANGED <<asks, spoken, turn>>
               /\ Note("n " \o ToString(i) \o "\nA " \o ToString(a))
Win(i) == /\ bus[i] # <<>> /\ bus' = [bus EXCEPT ![i] = Tail(@)]
          /\ inb' = [j \in Nodes |-> IF j = i THEN inb[j] ELSE Append(inb[j], Head(bus[i]))]
          /\ UNCHANGED <<s, press, asks, takers, v, spoken, turn>> /\ Note("V " \o ToString(i))
\* takers contains 0 while a node number is on its way
Take(i) == /\ inb[i] # <<>> /\ Does(i, [k |-> "F", dt |-> 0, f |-> Head(inb[i])], [inb EXCEPT ![i] = Tail(@)])
           /\ takers' = (IF Head(inb[i]).d # <<>> /\ Head(inb[i]).d[1] = 66 /\ s[i].cur = SETUP THEN takers \cup {i} ELSE takers)
           /\ UNCHANGED <<press, asks, spoken, turn>> /\ Note("D " \o ToString(i))
Tool(d, line) == /\ inb' = [j \in Nodes |-> Append(inb[j], Fr(1535, 0, d))] /\ UNCHANGED <<s, bus, press, v>> /\ Note(line)
Give == /\ Fam = "setup" /\ Settled /\ asks < MaxAsk /\ asks' = (IF Edges THEN 0 ELSE asks + 1) /\ takers' = {0} /\ UNCHANGED <<spoken, turn>>
        /\ Tool(<<66, 0, 9>>, "H 1535 0 0 420009")
Ask(i) == /\ Fam = "canid" /\ Settled /\ Enumerating = {} /\ asks < MaxAsk /\ asks' = (IF Edges THEN 0 ELSE asks + 1) /\ turn' = i /\ UNCHANGED <<takers, spoken>>
          /\ Tool(<<115>> \o Two(s[i].nn) \o <<1>>, "H 1535 0 0 73" \o Hex2(Hi(s[i].nn)) \o Hex2(Lo(s[i].nn)) \o "01")
Done(i) == /\ turn = i /\ Settled /\ Enumerating = {} /\ spoken' = (IF Edges THEN {} ELSE spoken \cup {i}) /\ turn' = 0 /\ UNCHANGED <<s, bus, inb, press, asks, takers, v>>
Time == /\ WithCan /\ Enumerating # {} /\ Settled
        /\ LET st == [k |-> "W", dt |-> 100]
               o == [i \in Nodes |-> Step(C, s[i], st, <<>>)]
           IN /\ s' = [i \in Nodes |-> Plain(o[i].s)] /\ bus' = [i \in Nodes |-> bus[i] \o Frames(o[i])]
              /\ v' = [i \in Nodes |-> [v[i] EXCEPT !.canid = o[i].s.canid, !.enum = FALSE]]
        /\ UNCHANGED <<inb, press, asks, takers, spoken, turn>> /\ Note("w 100")
Next == \/ \E i \in Nodes : Win(i) \/ Take(i) \/ Ask(i) \/ Done(i) \/ (Fam = "setup" /\ (Press(i, 0) \/ Press(i, 1))) \/ (Fam = "canid" /\ Press(i, 2))
        \/ Give \/ Time
Spec == Init /\ [][Next]_vars
View == Abs
\* ---------------------------------------------------------------- P30
OneSetup == (Settled /\ Fam = "setup") => AtMostOneSetup(v)
OneTaker == Cardinality(takers \ {0}) <= 1
KnockedOut == [][\A i \in Nodes : (inb[i] # <<>> /\ inb'[i] = Tail(inb[i]) /\ Head(inb[i]).d # <<>> /\ Head(inb[i]).d[1] = 80) => KeepsIdentity(v[i], v'[i])]_vars
\* ---------------------------------------------------------------- P31
Adopts == [][\A i \in Nodes : (v[i].enum /\ ~v'[i].enum /\ v[i].alone) => Unique(v', i)]_vars
Notices == [][\A i \in Nodes : (inb[i] # <<>> /\ inb'[i] = Tail(inb[i]) /\ Head(inb[i]).d # <<>> /\ Head(inb[i]).id % 128 = v[i].canid /\ v[i].canid # 0) => v'[i].enum]_vars
Resolved == (Settled /\ Enumerating = {} /\ Fam = "canid") => (\A i \in spoken : v[i].canid # 0 => v[i].canid \notin Others(v, i)) /\ (spoken = Nodes => Distinct(v))
=============================================================================
