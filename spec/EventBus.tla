------------------------------ MODULE EventBus ------------------------------
(***************************************************************************)
(* N modules, each a Node, on one bus, that produce events, consume events,   *)
(* and are taught events by a tool on the same bus.  Frames wait and travel   *)
(* as in NodeBus.  A frame carries which production it is (<<sender, k>>),     *)
(* which no module sees.                                                       *)
(***************************************************************************)
EXTENDS Node, Json, IOUtils
CONSTANTS N, MaxMade, MaxTaught, MaxQueue
Edges == IOEnv.EDGES = "1"
C == [nvs |-> 0, maxev |-> 2, evs |-> 1, prod |-> 0, ch |-> 1, ph |-> 0, crash |-> 0, base |-> 0, bs |-> 0, bm |-> 0, maj |-> 1, min |-> 97, beta |-> 0,
      manu |-> 13, mtyp |-> 7, cpuman |-> 2, cpuid |-> 50, name |-> <<78, 65, 77, 69, 32, 32, 32>>, cpu |-> <<63, 63, 63, 63>>,
      sv |-> <<"M", "C", "T", "P", "E">>]
VARIABLES s, bus, inb, made, tools, got, owed, barred
vars == <<s, bus, inb, made, tools, got, owed, barred>>
Nodes == 1..N
NN(i) == 10 + i
Plain(x) == [x EXCEPT !.shb = 0, !.up = 0, !.chg = 0, !.seq = 0, !.taught = 0, !.cons = 0, !.prod = 0]
NoP == <<0, 0>>
Fr(id, d, p) == [id |-> id, x |-> 0, r |-> 0, d |-> d, p |-> p]
Settled == \A i \in Nodes : bus[i] = <<>> /\ inb[i] = <<>>
Q(q) == [k \in DOMAIN q |-> <<q[k].id, q[k].d>>]
Abs == ToString([i \in Nodes |-> <<s[i].learn, [k \in 1..C.maxev |-> s[i].tab[k - 1]], Q(bus[i]), Q(inb[i])>>])
Small == FoldLeft(LAMBDA a, i : a + Len(bus[i]) + Len(inb[i]), 0, [i \in 1..N |-> i]) <= MaxQueue
Note(line) == IF Edges THEN (IF Small' THEN PrintT("EDGE " \o ToJson(<<Abs, line, Abs'>>)) ELSE TRUE) ELSE TRUE
Hex2(b) == LET H(k) == SubSeq("0123456789ABCDEF", k + 1, k + 1) IN H(b \div 16) \o H(b % 16)
Hex(d) == FoldLeft(LAMBDA a, b : a \o Hex2(b), "", d)

\* every module produces its own event 1; the first one also the short event 5
Rows(i, known) == IF i = 1 THEN (0 :> <<NN(1), 1, 1>>) @@ (1 :> <<0, 5, 2>>)
                  ELSE (0 :> <<NN(i), 1, 1>>) @@ (1 :> IF known = 1 THEN <<NN(1), 1, 0>> ELSE IF known = 2 THEN <<0, 5, 0>> ELSE <<>>)
Pre == FoldLeft(LAMBDA a, b : a \o b, <<>>,
         [i \in 1..N |-> <<"C nvs=0 maxev=2 evs=1 prod=0 ch=1 ph=0 crash=0 multi=1 svcs=M,C,T,P,E", "S 0 01" \o Hex2(i) \o "00" \o Hex2(NN(i)) \o "FF00",
                           "S 10 00" \o Hex2(NN(i)) \o "000101" \o IF i = 1 THEN "0000000502" ELSE "FFFFFFFFFF">>])
Init == /\ \E known \in IF Edges THEN {0} ELSE 0..2, learner \in IF Edges THEN {0} ELSE {0, 2} :
             s = [i \in Nodes |-> [Boot(C, [ResetStore(C) EXCEPT !.mode = NORMAL, !.canid = i, !.nn = NN(i), !.rst = FALSE, !.tab = Rows(i, known)]) EXCEPT !.learn = (i = learner)]]
        /\ bus = [i \in Nodes |-> <<>>] /\ inb = [i \in Nodes |-> <<>>] /\ made = [i \in Nodes |-> 0] /\ tools = 0
        /\ got = [i \in Nodes |-> <<>>] /\ owed = {} /\ barred = {}
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs, pre |-> Pre \o <<"B", "G 1">>])) ELSE TRUE

Knows(j, v, i) == IF v = 2 THEN Find(s[j], 0, 5) >= 0 ELSE Find(s[j], NN(i), 1) >= 0
Produce(i, on, v) ==
  LET o == Step(C, s[i], [k |-> "A", dt |-> 0, a |-> <<3, IF on THEN 1 ELSE 0, v, 0>>], <<>>)
      p == <<i, made[i] + 1>>
  IN /\ made[i] < MaxMade /\ FindEv1(s[i], v) >= 0
     /\ made' = [made EXCEPT ![i] = IF Edges THEN 0 ELSE @ + 1]
     /\ s' = [s EXCEPT ![i] = Plain(o.s)]
     /\ bus' = [bus EXCEPT ![i] = @ \o [k \in DOMAIN o.tx |-> Fr(1408 + i, o.tx[k], p)]]
     /\ owed' = (IF Edges THEN {} ELSE owed \cup {<<p, j>> : j \in {x \in Nodes \ {i} : Knows(x, v, i)}})
     /\ barred' = (IF Edges THEN {} ELSE barred \cup {<<p, j>> : j \in {x \in Nodes \ {i} : ~Knows(x, v, i)}})
     /\ UNCHANGED <<inb, tools, got>>
     /\ Note("n " \o ToString(i) \o "\nA 3 " \o (IF on THEN "1 " ELSE "0 ") \o ToString(v) \o " 0")
Win(i) == /\ bus[i] # <<>> /\ bus' = [bus EXCEPT ![i] = Tail(@)]
          /\ inb' = [j \in Nodes |-> IF j = i THEN inb[j] ELSE Append(inb[j], Head(bus[i]))]
          /\ UNCHANGED <<s, made, tools, got, owed, barred>> /\ Note("V " \o ToString(i))
Take(i) ==
  /\ inb[i] # <<>>
  /\ LET f == Head(inb[i])
         o == Step(C, s[i], [k |-> "F", dt |-> 0, f |-> f], <<>>)
         moved == o.s.tab # s[i].tab
     IN /\ s' = [s EXCEPT ![i] = Plain(o.s)]
        /\ bus' = [bus EXCEPT ![i] = @ \o [k \in DOMAIN o.tx |-> Fr(1408 + i, o.tx[k], NoP)]]
        /\ inb' = [inb EXCEPT ![i] = Tail(@)]
        /\ got' = (IF Edges THEN got ELSE [got EXCEPT ![i] = @ \o [k \in DOMAIN o.cb |-> f.p]])
        /\ owed' = (IF moved THEN {x \in owed : x[2] # i} ELSE owed)
        /\ barred' = (IF moved THEN {x \in barred : x[2] # i} ELSE barred)
  /\ UNCHANGED <<made, tools>> /\ Note("D " \o ToString(i))
Tool(d) == /\ (Edges => inb = [i \in Nodes |-> <<>>]) /\ tools < MaxTaught /\ tools' = (IF Edges THEN 0 ELSE tools + 1)
           /\ inb' = [j \in Nodes |-> Append(inb[j], Fr(1535, d, NoP))] /\ UNCHANGED <<s, bus, made, got, owed, barred>>
           /\ Note("H 1535 0 0 " \o Hex(d))
Teach == \/ \E i \in Nodes : Tool(<<83, 0, NN(i)>>) \/ Tool(<<84, 0, NN(i)>>)                        \* NNLRN, NNULN
         \/ \E nn \in {NN(i) : i \in Nodes} : Tool(<<210, 0, nn, 0, 1, 1, 0>>) \/ Tool(<<149, 0, nn, 0, 1>>)     \* EVLRN, EVULN
         \/ Tool(<<210, 0, 0, 0, 5, 1, 0>>) \/ Tool(<<149, 0, 0, 0, 5>>)
         \/ ~Edges /\ (Tool(<<144, 0, NN(1), 0, 1>>) \/ Tool(<<152, 0, NN(2), 0, 5>>))                           \* the tool sends events too
Next == Teach \/ \E i \in Nodes : Win(i) \/ Take(i) \/ (\E on \in BOOLEAN, v \in {1, 2} : (IF Edges THEN on = (v = 1) ELSE on) /\ Produce(i, on, v))
Spec == Init /\ [][Next]_vars
View == Abs
\* ---------------------------------------------------------------- P34
\* every production reaches a handler at most once, a sender's productions in order
OnceInOrder == \A j \in Nodes : LET own == SelectSeq(got[j], LAMBDA p : p # NoP)
                                IN \A a, b \in DOMAIN own : a < b /\ own[a][1] = own[b][1] => own[a][2] < own[b][2]
\* ... that of everyone who was taught the event all along and of nobody who was not at any time
Reaches == /\ (Settled => \A x \in owed : x[1] \in Range(got[x[2]]))
           /\ \A x \in barred : x[1] \notin Range(got[x[2]])
NotItself == \A j \in Nodes : \A k \in DOMAIN got[j] : got[j][k][1] # j
\* teaching by node number reaches one module
OneLearner == Settled => Cardinality({i \in Nodes : s[i].learn}) <= 1
OnlyLearners == [][\A i \in Nodes : s'[i].tab # s[i].tab => s[i].learn]_vars
=============================================================================
