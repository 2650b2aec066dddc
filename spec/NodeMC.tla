------------------------------- MODULE NodeMC -------------------------------
(***************************************************************************)
(* The module specification with small constants, explored exhaustively.    *)
(* A family (environment variable FAM) fixes the configuration and the set  *)
(* of stimuli.  P01 .. P32 state the listed properties as relations between *)
(* the state before a step, the stimulus, and what the step does; they are  *)
(* written from the property texts, not from Node.                          *)
(* With EDGES=1 every transition is printed; the driver turns the graph     *)
(* into executions that cover all transitions on the implementation.        *)
(***************************************************************************)
EXTENDS Node, Json, IOUtils

Fam == IOEnv.FAM
Edges == IOEnv.EDGES = "1"

Base == [nvs |-> 0, maxev |-> 2, evs |-> 1, prod |-> 0, ch |-> 1, ph |-> 1, crash |-> 1, base |-> 0, bs |-> 0, bm |-> 0, maj |-> 1, min |-> 97, beta |-> 0,
         manu |-> 13, mtyp |-> 7, cpuman |-> 2, cpuid |-> 50, name |-> <<78, 65, 77, 69, 32, 32, 32>>, cpu |-> <<63, 63, 63, 63>>,
         sv |-> <<"MD", "U", "CD", "N", "ED", "PD", "TD">>]
C == CASE Fam = "life" -> [Base EXCEPT !.maxev = 1, !.sv = <<"MD", "CD", "TD", "U">>]
       [] Fam = "def" -> [Base EXCEPT !.maxev = 2, !.prod = 2, !.sv = <<"M", "C", "P", "T", "U">>]
       [] Fam = "hb" -> [Base EXCEPT !.maxev = 1, !.sv = <<"M", "C", "U">>]
       [] Fam = "nv" -> [Base EXCEPT !.nvs = 2, !.maxev = 1, !.sv = <<"M", "C", "N", "U">>]
       [] Fam = "teach" -> [Base EXCEPT !.sv = <<"M", "C", "T", "E", "U">>]
       [] Fam = "teach3" -> [Base EXCEPT !.maxev = 3, !.sv = <<"M", "C", "T", "E", "U">>]
       [] Fam = "prod3" -> [Base EXCEPT !.maxev = 3, !.prod = 2, !.sv = <<"M", "C", "P", "T", "E", "U">>]
       [] Fam = "teach2" -> [Base EXCEPT !.evs = 2, !.sv = <<"M", "C", "T", "E", "U">>]
       [] Fam = "prod" -> [Base EXCEPT !.maxev = 2, !.prod = 1, !.sv = <<"M", "C", "P", "T", "E", "U">>]
       [] Fam = "own" -> [Base EXCEPT !.maxev = 2, !.prod = 1, !.sv = <<"M", "C", "P", "T", "E", "O", "U">>]
       [] Fam = "enum" -> [Base EXCEPT !.maxev = 1, !.sv = <<"M", "C", "U">>]
       [] Fam = "disc" -> [Base EXCEPT !.nvs = 1, !.maxev = 1]

\* ------------------------------------------------------------- stimuli
Fr(id, x, r, d) == [k |-> "F", dt |-> 0, f |-> [id |-> id, x |-> x, r |-> r, d |-> d]]
M(d) == Fr(1418, 0, 0, d)
Wait(ms) == [k |-> "W", dt |-> ms]
Action(a) == [k |-> "A", dt |-> 0, a |-> a]
Power == [k |-> "X", dt |-> 0]
NNs == {1, 256}
Two(n) == <<Hi(n), Lo(n)>>
Own(s, op, rest) == M(<<op>> \o Two(s.nn) \o rest)
Foreign(s, op, rest) == M(<<op>> \o Two(IF s.nn = 1 THEN 257 ELSE IF s.nn = 256 THEN 257 ELSE 1) \o rest)
Pairs == {<<0, 1>>, <<1, 1>>, <<1, 257>>}
PairMsg(op, p, rest) == M(<<op>> \o Two(p[1]) \o Two(p[2]) \o rest)
Learning(s) == {Own(s, 83, <<>>), Own(s, 84, <<>>), Foreign(s, 83, <<>>), Power}

Life(s) ==
  {Action(<<0>>), Action(<<1>>), Action(<<2>>), Power, Wait(105), M(<<80, 0, 0>>), M(<<16>>), M(<<17>>), M(<<13>>), M(<<66>>)}
  \cup {M(<<66>> \o Two(n)) : n \in NNs} \cup {Own(s, 118, <<m>>) : m \in {0, 1, 2, 8, 9, 12, 13, 255}} \cup {Own(s, 118, <<>>)}
  \cup {Own(s, op, <<>>) : op \in {79, 94, 93, 83, 84, 85}} \cup {Foreign(s, op, <<>>) : op \in {79, 94, 93, 83, 84, 85}}
  \cup {Foreign(s, 118, <<m>>) : m \in {0, 8, 12, 255}} \cup {Own(s, 117, <<9>>), Own(s, 117, <<0>>), Foreign(s, 117, <<9>>), Own(s, 115, <<8>>)}
Hb(s) ==
  {Action(<<0>>), Action(<<1>>), Action(<<5, 0>>), Action(<<5, 1>>), Power, Wait(2501), Wait(5001), M(<<66, 0, 1>>), M(<<80, 0, 0>>), Own(s, 94, <<>>)} \cup {Own(s, 118, <<m>>) : m \in {12, 13, 255}}
  \cup {Foreign(s, 118, <<m>>) : m \in {12, 13}}
Nv(s) ==
  {Action(<<0>>), M(<<66, 0, 1>>), Power, Own(s, 79, <<>>)} \cup {Own(s, 113, <<i>>) : i \in {0, 1, 2, 3, 255}} \cup {Foreign(s, 113, <<1>>)}
  \cup {Own(s, op, <<i, v>>) : op \in {150, 142}, i \in {0, 1, 2, 3}, v \in {0, 255}} \cup {Foreign(s, op, <<1, 255>>) : op \in {150, 142}}
  \cup {Own(s, op, <<1>>) : op \in {150, 142}} \cup {Own(s, op, <<>>) : op \in {113, 150, 142}}
TeachOps(s, vals) ==
  Learning(s) \cup {Own(s, op, <<>>) : op \in {85, 86, 87, 88}} \cup {Own(s, 114, <<i>>) : i \in 0..C.maxev}
  \cup {Own(s, 156, <<i, k>>) : i \in 0..C.maxev, k \in 0..(C.evs + 1)}
  \cup UNION {{PairMsg(149, p, <<>>), PairMsg(144, p, <<>>)} \cup {PairMsg(178, p, <<k>>) : k \in 0..(C.evs + 1)}
              \cup {PairMsg(210, p, <<k, v>>) : k \in 0..(C.evs + 1), v \in vals}
              \cup {PairMsg(245, p, <<i, 1, v>>) : i \in 0..C.maxev, v \in vals} : p \in Pairs}
  \cup {M(<<153, 1, 1, 0, 1>>), PairMsg(210, <<1, 1>>, <<1>>), PairMsg(178, <<1, 1>>, <<>>), M(<<149, 0, 1>>), PairMsg(245, <<1, 1>>, <<0>>), Foreign(s, 85, <<>>)}
Prod(s) ==
  {Own(s, 83, <<>>), Own(s, 85, <<>>), Power, M(<<66, 0, 1>>), M(<<66, 1, 0>>), Action(<<1>>), Action(<<0>>), Own(s, 87, <<>>)}
  \cup {Action(<<3, 1, v, 0>>) : v \in {1, 2}} \cup {Action(<<3, 0, 2, 1, 7>>)}
  \cup {Action(<<4, 1, i, 2, 7, 8>>) : i \in Used(s)}
  \cup UNION {{PairMsg(210, p, <<1, v>>) : v \in {0, 1}} \cup {PairMsg(149, p, <<>>), PairMsg(146, p, <<>>), PairMsg(154, p, <<>>), PairMsg(176, p, <<9>>)} : p \in {<<0, 1>>, <<1, 1>>}}
Enum(s) ==
  {Action(<<0>>), Action(<<1>>), Action(<<2>>), Power, Wait(60), Wait(105), M(<<66, 0, 1>>), Own(s, 93, <<>>), Own(s, 117, <<2>>), Fr(1400, 0, 1, <<>>), Fr(1400, 1, 0, <<>>)}
  \cup {Fr(1408 + i, 0, 0, <<>>) : i \in {0, 1, 2}} \cup {Fr(1408 + i, 0, 0, <<13>>) : i \in {0, 1, 2, 3}}
Disc(s) ==
  {Action(<<0>>), M(<<66, 0, 1>>), Own(s, 83, <<>>), Own(s, 84, <<>>), M(<<16>>), M(<<17>>), M(<<13>>), Own(s, 120, <<>>), Own(s, 115, <<>>), Own(s, 135, <<1>>)}
  \cup {Own(s, 120, <<i>>) : i \in 0..8} \cup {Own(s, 115, <<i>>) : i \in 0..22} \cup {Own(s, 135, <<i, k>>) : i \in 1..8, k \in {0, 1, 2, 6, 7, 19}}
  \cup {Foreign(s, 120, <<0>>), Foreign(s, 115, <<1>>), Foreign(s, 135, <<1, 1>>)}

Stim(s) == CASE Fam = "life" -> Life(s) [] Fam = "def" -> Life(s) \cup {Own(s, 87, <<>>), PairMsg(149, <<1, 1>>, <<>>)}
             [] Fam = "hb" -> Hb(s) [] Fam = "nv" -> Nv(s)
             [] Fam = "teach" -> TeachOps(s, {0, 1, 2}) [] Fam \in {"teach2", "teach3"} -> TeachOps(s, {0, 1})
             [] Fam \in {"prod", "own", "prod3"} -> Prod(s) [] Fam = "enum" -> Enum(s) [] Fam = "disc" -> Disc(s)

\* --------------------------------------------------------- the behaviour
VARIABLES s, last
vars == <<s, last>>

Start == Boot(C, IF Fam \in {"teach", "teach2", "teach3"} THEN [ResetStore(C) EXCEPT !.mode = NORMAL, !.nn = 256, !.canid = 5, !.rst = FALSE] ELSE ResetStore(C))
\* what decides the future, counters apart
Abs(x) == <<x.mode, x.canid, x.nn, x.hb, x.ea, x.rst, x.nvs, x.tab, x.cur, x.learn, x.enm, IF Fam = "hb" THEN Min2(x.shb, 5002) ELSE 0, x.un>>
Init == /\ s = Start /\ last = [b |-> 0]
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([c |-> C, s |-> ToString(Abs(Start)), dk |-> <<Start.mode, Start.canid, Start.nn>>])) ELSE TRUE
View == Abs(s)

\* power fails while the step is storing its results: any mixture of old and new bytes may be left
Pick(x, y) == {x, y}
PickNN(x, y) == {h * 256 + w : h \in Pick(Hi(x), Hi(y)), w \in Pick(Lo(x), Lo(y))}
Cells(row) == IF row = <<>> THEN <<65535, 65535>> \o [k \in 1..C.evs |-> 255] ELSE row
Free(row) == IF row[1] = 65535 /\ row[2] = 65535 THEN <<>> ELSE row
PickRow(x, y) ==
  LET p == Cells(x)  q == Cells(y)
  IN {Free(r) : r \in {<<n, e>> \o v : n \in PickNN(p[1], q[1]), e \in PickNN(p[2], q[2]), v \in {w \in [1..C.evs -> {p[2 + k] : k \in 1..C.evs} \cup {q[2 + k] : k \in 1..C.evs}] : \A k \in 1..C.evs : w[k] \in Pick(p[2 + k], q[2 + k])}}}
\* one item is stored at a time: identity, a node variable or an entry (a clear takes the entries one by one)
Crash(b, a) ==
  {Boot(C, [b EXCEPT !.mode = m, !.canid = i, !.nn = n, !.hb = h, !.ea = e, !.rst = r]) :
       m \in Pick(b.mode, a.mode), i \in Pick(b.canid, a.canid), n \in PickNN(b.nn, a.nn), h \in Pick(b.hb, a.hb), e \in Pick(b.ea, a.ea), r \in Pick(b.rst, a.rst)}
  \cup {Boot(C, [b EXCEPT !.nvs[k] = v]) : k \in {j \in DOMAIN b.nvs : a.nvs[j] # b.nvs[j]}, v \in {a.nvs[j] : j \in DOMAIN a.nvs}}
  \cup UNION {{Boot(C, [b EXCEPT !.tab[k] = r]) : r \in PickRow(b.tab[k], a.tab[k])} : k \in {j \in DOMAIN b.tab : a.tab[j] # b.tab[j]}}

Note(b, st, a) == IF Edges THEN PrintT("EDGE " \o ToJson(<<ToString(Abs(b)), st, ToString(Abs(a))>>)) ELSE TRUE

Next == \E st \in Stim(s) :
          LET o == Step(C, s, st, <<>>)
          IN /\ s' = [o.s EXCEPT !.shb = Min2(@, 20000), !.up = 0, !.chg = 0, !.cons = 0, !.prod = 0, !.taught = 0, !.seq = 0]
             /\ last' = [b |-> s, st |-> st, o |-> o]
             /\ Note(s, st, s')
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------- the properties
B == last.b   St == last.st   O == last.o   A == last.o.s
IsMsg == St.k = "F" /\ St.f.x = 0 /\ St.f.r = 0 /\ Len(St.f.d) > 0
D == Pad(St.f.d)
Ln == Len(St.f.d)
Op(n) == IsMsg /\ D[1] = n
Mine == NNof(D) = B.nn
IsA(n) == St.k = "A" /\ St.a[1] = n
Addressed == {79, 83, 84, 85, 86, 87, 88, 93, 94, 113, 114, 115, 117, 118, 120, 135, 142, 150, 156}
Need(op) == CASE op \in {113, 114, 115, 117, 118, 120} -> 4 [] op \in {135, 142, 149, 150, 156} -> 5 [] op = 178 -> 6 [] op = 210 -> 7 [] op = 245 -> 8 [] OTHER -> 3
Quiet == O.tx = <<>> /\ O.dx = <<>> /\ O.cb = <<>> /\ O.md = <<>> /\ O.rb = 0
Store(x) == <<x.mode, x.canid, x.nn, x.hb, x.ea, x.rst, x.nvs, x.tab>>
Sent(op) == SelectSeq(O.tx, LAMBDA m : m[1] = op)
NotHb == SelectSeq(O.tx, LAMBDA m : m[1] # 171)
\* nothing changed (a message may start an enumeration whatever it says, see P14)
Same == [A EXCEPT !.enm = B.enm] = B
Restarted == St.k = "X" \/ O.rb > 0
PairsOf(x) == {<<x.tab[i][1], x.tab[i][2]>> : i \in Used(x)}
OnlyRow(i) == \A j \in DOMAIN B.tab : j # i => A.tab[j] = B.tab[j]
Acked == O.tx # <<>> /\ (Sent(89) # <<>>)

CanCancel == IsA(1) \/ Op(80)
ModeCmd(m) == Op(118) /\ Mine /\ Ln >= 4 /\ D[4] = m
P01Step ==
  LET was == B.cur   now == A.cur   reset == O.rb = 2
  IN /\ A.mode \in {NORMAL, UNINIT} /\ now \in {SETUP, NORMAL, UNINIT}
     /\ now # SETUP => now = A.mode
     /\ (was = UNINIT /\ now = SETUP) => IsA(0)
     /\ ~(was = UNINIT /\ now = NORMAL)
     /\ (was = NORMAL /\ now = SETUP) => (IsA(1) \/ ModeCmd(0))
     /\ (was = NORMAL /\ now = UNINIT) => (IsA(0) \/ ModeCmd(255) \/ reset)
     /\ (was = SETUP /\ now = NORMAL) => (Op(66) \/ (B.mode = NORMAL /\ (CanCancel \/ Restarted)))
     /\ (was = SETUP /\ now = UNINIT) => (IsA(0) \/ ModeCmd(255) \/ reset \/ (B.mode = UNINIT /\ (CanCancel \/ Restarted)))
     /\ IsA(0) => now = (IF was = UNINIT THEN SETUP ELSE UNINIT)
     /\ (IsA(1) /\ was = NORMAL) => now = SETUP
     /\ (was = SETUP /\ CanCancel) => (now = B.mode /\ A.nn = B.nn)
     /\ (was = SETUP /\ Op(66) /\ Ln >= 3) => (now = NORMAL /\ A.nn = NNof(D) /\ Len(Sent(82)) = 1)
     /\ A.nn # B.nn => ((was = SETUP /\ Op(66)) \/ A.nn = 0)
     /\ (B.mode = NORMAL /\ A.mode = UNINIT) => (A.nn = 0 /\ A.canid = 0)
     /\ (was # SETUP /\ now = SETUP) => (Len(Sent(80)) = 1 /\ Sent(80)[1] = <<80, Hi(B.nn), Lo(B.nn)>>)
     /\ (was = SETUP \/ now # SETUP) => Sent(80) = <<>>
     /\ (Sent(81) # <<>>) <=> (B.cur = NORMAL /\ B.nn # 0 /\ A.cur = UNINIT) \/ reset
     /\ was # now => (O.md # <<>> /\ O.md[Len(O.md)] = now)
     /\ (Flags(C, A) \div 4) % 2 = (IF now = NORMAL THEN 1 ELSE 0)
P02Step ==
  /\ (St.k = "X" \/ O.rb = 1) => (Store(A) = Store(B) /\ A.cur = B.mode /\ ~A.learn /\ O.tx = <<>>)
P03Step ==
  (IsMsg /\ D[1] \in Addressed /\ ~Mine) => ([A EXCEPT !.learn = B.learn] = [B EXCEPT !.un = A.un, !.tab = A.tab] /\ Quiet /\ (A.learn => B.learn) /\ (A.learn # B.learn => D[1] = 83))
P04Step ==
  /\ A.nvs # B.nvs => (O.rb = 2 \/ (IsMsg /\ D[1] \in {150, 142} /\ Mine /\ Ln >= 5))
  /\ (IsMsg /\ D[1] \in {150, 142} /\ Mine) =>
       /\ \A i \in DOMAIN B.nvs : A.nvs[i] = IF Ln >= 5 /\ i = D[4] THEN D[5] ELSE B.nvs[i]
       /\ [A EXCEPT !.nvs = B.nvs] = B
       /\ (Acked \/ Sent(151) # <<>>) <=> (Ln >= 5 /\ D[4] \in DOMAIN B.nvs)
  /\ (Op(113) /\ Mine) => /\ Same
                          /\ (Ln >= 4 /\ D[4] \in DOMAIN B.nvs) => O.tx = <<<<151, D[2], D[3], D[4], B.nvs[D[4]]>>>>
                          /\ (Ln >= 4 /\ D[4] = 0) => Len(O.tx) = C.nvs + 1
TeachOp == {210, 245, 149, 85}
P05Step ==
  /\ (Op(210) /\ Acked) => /\ <<NNof(D), ENof(D)>> \in PairsOf(A)
                           /\ \E i \in DOMAIN A.tab : OnlyRow(i)
                           /\ <<NNof(D), ENof(D)>> \notin PairsOf(B) => Cardinality(Used(A)) \in {Cardinality(Used(B)), Cardinality(Used(B)) + 1}
  /\ (Op(245) /\ Acked) => (OnlyRow(D[6]) /\ A.tab[D[6]][1] = NNof(D) /\ A.tab[D[6]][2] = ENof(D))
  /\ (Op(149) /\ Acked) => /\ Matching(B, NNof(D), ENof(D)) # {}
                           /\ A.tab = [B.tab EXCEPT ![Least(Matching(B, NNof(D), ENof(D)))] = <<>>]
  /\ (Op(85) /\ Acked) => Used(A) = {}
  /\ (IsMsg /\ D[1] \in TeachOp /\ ~Acked) => A.tab = B.tab
  /\ (Op(88) /\ Mine) => (Same /\ O.tx[1][4] = Cardinality(Used(B)))
  /\ (Op(86) /\ Mine) => (Same /\ O.tx[1][4] = C.maxev - Cardinality(Used(B)))
  /\ (Op(87) /\ Mine) => {<<m[8], m[4] * 256 + m[5], m[6] * 256 + m[7]>> : m \in Range(O.tx)} = {<<i, B.tab[i][1], B.tab[i][2]>> : i \in Used(B)}
  /\ \A i \in Used(A) : Find(A, A.tab[i][1], A.tab[i][2]) \in Used(A) /\ Find(A, A.tab[i][1], A.tab[i][2]) <= i
P06Step ==
  /\ (A.tab # B.tab) => ((IsMsg /\ D[1] \in TeachOp /\ B.learn) \/ O.rb = 2 \/ IsA(3) \/ (B.mode = UNINIT \/ B.un))
  /\ (~B.learn /\ IsMsg /\ D[1] \in TeachOp \cup {178}) => (A.tab = B.tab /\ (D[1] # 85 => NotHb = <<>>) /\ ~Acked)
  /\ (A.learn /\ ~B.learn) => (Mine /\ (Op(83) \/ (Op(118) /\ D[4] = 8)))
  /\ (~A.learn /\ B.learn) => (Restarted \/ (Op(83) /\ ~Mine) \/ (Mine /\ (Op(84) \/ Op(118))))
  /\ (Op(83) /\ ~Mine) => ~A.learn
  /\ (Flags(C, A) \div 32) % 2 = (IF A.learn THEN 1 ELSE 0)
P07Step ==
  /\ (Op(210) /\ Acked) => \A i \in DOMAIN A.tab : A.tab[i] # B.tab[i] =>
        \/ B.tab[i] = <<>> /\ \A k \in 1..C.evs : A.tab[i][2 + k] = IF k = D[6] THEN D[7] ELSE 255
        \/ B.tab[i] # <<>> /\ \A k \in 1..C.evs : A.tab[i][2 + k] = IF k = D[6] THEN D[7] ELSE B.tab[i][2 + k]
  /\ (Op(178) /\ B.learn /\ Ln >= 6 /\ D[6] \in 1..C.evs /\ Matching(B, NNof(D), ENof(D)) # {}) => O.tx[1][7] = B.tab[Find(B, NNof(D), ENof(D))][2 + D[6]]
  /\ (Op(156) /\ Mine /\ Ln >= 5 /\ D[4] \in Used(B) /\ D[5] \in 1..C.evs) => O.tx = <<<<181, D[2], D[3], D[4], D[5], B.tab[D[4]][2 + D[5]]>>>>
  /\ (IsMsg /\ D[1] \in {156, 178}) => Same
Handled == SelectSeq(O.cb, LAMBDA x : x[1] = 0)
P08Step ==
  /\ (IsMsg /\ D[1] \in NumLong \cup NumShort /\ Has(C, 6)) =>
        LET m == Matching(B, IF D[1] \in NumShort THEN 0 ELSE NNof(D), ENof(D))
        IN Handled = IF m = {} THEN <<>> ELSE <<<<0, Least(m), Ln>> \o St.f.d>>
  /\ (Handled # <<>> /\ ~Has(C, 8)) => (IsMsg /\ D[1] \in NumLong \cup NumShort)
P09Step ==
  IsA(3) /\ ~Restarted =>
    LET v == St.a[3]
        have == {i \in Used(B) : B.tab[i][3] = v}
    IN IF have # {} THEN A.tab = B.tab /\ Len(O.tx) = 1 /\ ENof(O.tx[1]) = B.tab[Least(have)][2]
       ELSE IF FreeSlots(B) = {} THEN A = B /\ O.tx = <<>>
       ELSE \E i \in FreeSlots(B) : OnlyRow(i) /\ A.tab[i][1] = B.nn /\ A.tab[i][3] = v /\ Matching(B, B.nn, A.tab[i][2]) = {} /\ Len(O.tx) = 1
P10Step ==
  /\ (\E x \in Range(O.cb) : x[1] = 1) => (Op(146) \/ (Op(154) /\ NNof(D) \in {0, B.nn}))
  /\ Op(146) => (O.cb # <<>> <=> \E i \in Used(B) : B.tab[i][1] = NNof(D) /\ B.tab[i][2] = ENof(D) /\ i = Find(B, NNof(D), ENof(D)) /\ B.tab[i][3] # 0)
  /\ IsA(4) => (Len(O.tx) = 1 /\ Same)
P11Step ==
  /\ (B.un /\ ~A.un /\ ~Restarted) =>
        /\ A.mode = NORMAL
        /\ \A i \in Used(B) : A.tab[i] = B.tab[i] \/ (IsMsg /\ D[1] \in TeachOp)
        /\ LET new == {i \in DOMAIN A.tab : A.tab[i] # B.tab[i]}
           IN /\ Cardinality(new) = Min2(C.prod, Cardinality(FreeSlots(B)))
              /\ {A.tab[i][3] : i \in new} = 1..Cardinality(new)
              /\ Cardinality({<<A.tab[i][1], A.tab[i][2]>> : i \in Used(A)}) = Cardinality(Used(A))
                 \/ \E i, j \in Used(B) : i # j /\ <<B.tab[i][1], B.tab[i][2]>> = <<B.tab[j][1], B.tab[j][2]>>
  /\ (B.mode = NORMAL /\ ~B.un /\ A.mode = NORMAL) => ~A.un
P12Step ==
  /\ (IsA(3) \/ IsA(4)) => Len(O.cb) = IF Has(C, 8) /\ Len(O.tx) = 1 /\ O.tx[1][1] \in NumLong \cup NumShort
                                       /\ Matching(A, IF O.tx[1][1] \in NumShort THEN 0 ELSE NNof(O.tx[1]), ENof(O.tx[1])) # {} THEN 1 ELSE 0
P13Step ==
  /\ (~B.enm.on /\ A.enm.on) => O.dx = <<1>>
  /\ (1 \in Range(O.dx)) => (~B.enm.on \/ B.enm.el + St.dt >= 100 \/ Restarted)
  /\ (B.enm.on /\ A.enm.on) => (A.enm.el < 100 /\ (A.canid = B.canid \/ Op(117) \/ (O.md # <<>> /\ A.cur = UNINIT /\ A.canid = 0)))
  /\ (B.enm.on /\ B.enm.el + St.dt >= 100 /\ ~Restarted /\ O.dx = <<>>) =>
        /\ ~A.enm.on
        /\ A.canid = Least((1..127) \ B.enm.ids) \/ Op(117) \/ (O.md # <<>> /\ A.cur = UNINIT /\ A.canid = 0)
  /\ (Len(Sent(82)) > 0 /\ St.k = "W") => B.enm.ack
P14Step ==
  /\ (St.k = "F" /\ St.f.x = 1) => (A = B /\ Quiet)
  /\ (St.k = "F" /\ St.f.x = 0 /\ St.f.r = 1) => (O.dx = <<0>> /\ [A EXCEPT !.enm = B.enm] = B /\ O.tx = <<>>)
  /\ (IsMsg /\ St.f.id % 128 = B.canid) => A.enm.on \/ B.enm.on \/ Restarted
  /\ (St.k = "F" /\ St.f.x = 0 /\ St.f.r = 0 /\ St.f.d = <<>>) => ([A EXCEPT !.enm = B.enm] = B /\ Quiet)
  /\ (Op(117) /\ Mine /\ Ln >= 4 /\ D[4] \in 1..99) => (A.canid = D[4] /\ Acked)
  /\ (Op(117) /\ (~Mine \/ Ln < 4 \/ D[4] \notin 1..99)) => (A.canid = B.canid /\ ~Acked)
P20Step ==
  /\ Sent(171) # <<>> => (A.hb /\ A.mode = NORMAL /\ A.cur = NORMAL /\ Len(Sent(171)) = 1 /\ B.shb + St.dt > 5000)
  /\ (A.hb /\ A.cur = NORMAL /\ ~Restarted /\ B.shb + St.dt > 5000) => Sent(171) = <<<<171, Hi(A.nn), Lo(A.nn), B.seq, 0, 0>>>>
  /\ A.hb # B.hb => (O.rb = 2 \/ (Op(118) /\ Mine /\ Ln >= 4 /\ D[4] \in {12, 13}))
P21Step ==
  /\ (IsMsg /\ D[1] \in {13, 16, 17, 115, 120}) => Same
  /\ (Op(120) /\ Mine /\ Ln >= 4 /\ D[4] = 0) => {m[4] : m \in Range(O.tx)} = {0} \cup {i \in DOMAIN C.sv : C.sv[i] \notin {"U"}}
  /\ Op(13) => (O.tx # <<>> <=> B.nn > 0)
  /\ Op(16) => (O.tx # <<>> <=> B.cur = SETUP)
  /\ Op(17) => (O.tx # <<>> <=> (B.cur = SETUP \/ B.learn))
  /\ (Op(115) /\ Mine /\ Ln >= 4) => Len(O.tx) = IF D[4] = 0 THEN 21 ELSE IF D[4] <= 20 THEN 1 ELSE 2
P22Step ==
  /\ Op(135) => (Same /\ (Mine => O.tx # <<>>))
P23Step ==
  /\ O.rb = 2 => (Op(79) /\ Mine /\ Store(A) = Store(Boot(C, ResetStore(C))) /\ A.cur = UNINIT /\ Len(Sent(81)) = 1)
  /\ O.rb = 1 => (Op(94) /\ Mine /\ Store(A) = Store(B))
  /\ (IsMsg /\ D[1] \in {79, 94} /\ Mine /\ Ln >= 3) => O.rb > 0
P32Step ==
  /\ (IsMsg /\ Ln < Need(D[1]) /\ D[1] \in Addressed \cup TeachOp \cup {178, 66}) =>
       (Store(A) = Store([B EXCEPT !.tab = A.tab]) /\ (A.tab # B.tab => B.un) /\ O.rb = 0 /\ A.cur = B.cur)

\* a power failure while a step stores its results touches nothing the step does not change, the module comes up again,
\* and repeating an interrupted setting completes it
P24Step ==
  O.rb = 0 => \A x \in Crash(B, A) :
    /\ ~x.learn /\ x.cur = x.mode
    /\ \A j \in DOMAIN B.nvs : x.nvs[j] # B.nvs[j] => x.nvs[j] = A.nvs[j]
    /\ \A j \in DOMAIN B.tab : A.tab[j] = B.tab[j] => x.tab[j] = B.tab[j]
    /\ x.nn \in PickNN(B.nn, A.nn) /\ x.canid \in {B.canid, A.canid}
    /\ (IsMsg /\ D[1] \in {150, 142, 117} /\ Mine) => LET z == Step(C, x, St, <<>>).s IN z.nvs = A.nvs /\ z.canid = A.canid

P01 == [][P01Step']_vars   P02 == [][P02Step']_vars   P03 == [][P03Step']_vars   P04 == [][P04Step']_vars
P05 == [][P05Step']_vars   P06 == [][P06Step']_vars   P07 == [][P07Step']_vars   P08 == [][P08Step']_vars
P09 == [][P09Step']_vars   P10 == [][P10Step']_vars   P11 == [][P11Step']_vars   P12 == [][P12Step']_vars
P13 == [][P13Step']_vars   P14 == [][P14Step']_vars   P20 == [][P20Step']_vars   P21 == [][P21Step']_vars
P22 == [][P22Step']_vars   P23 == [][P23Step']_vars   P24 == [][P24Step']_vars   P32 == [][P32Step']_vars
=============================================================================
