-------------------------------- MODULE Node --------------------------------
(***************************************************************************)
(* A VLCB module (Controller + Configuration + services) as a state machine *)
(* whose steps are the stimuli a module can get: a CAN frame, a user        *)
(* action, the passing of time, a power cycle.  Step(c, s, st, h) gives the *)
(* next state and everything the module does that somebody can observe.     *)
(*                                                                          *)
(*   c   configuration (constant): counts, services, parameters             *)
(*   s   state, see NewState                                                *)
(*   st  stimulus                                                           *)
(*   h   hint: how the implementation used freedom the specification leaves *)
(*       (which free entry, which unused event number): for each entry that  *)
(*       changed during the step, what it held, in order; ignored when the    *)
(*       choice it suggests is not an allowed one                           *)
(*                                                                          *)
(* Nothing here has a bound: the same operators are model checked with      *)
(* small constants (NodeMC) and used to judge recorded executions of the    *)
(* implementation (NodeTrace, BusTrace).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* ------------------------------------------------------------ constants
SETUP == 0      NORMAL == 1     UNINIT == 255
ERR_CMD == 1    ERR_NOTLRN == 2 ERR_FULL == 4  ERR_EVIDX == 6  ERR_EVENT == 7
ERR_ENIDX == 8  ERR_PARIDX == 9 ERR_NVIDX == 10
BAD_MODE == 250 BAD_SERVICE == 252 BAD_DIAG == 253
CAP == 200000   \* elapsed times are counted up to here

\* ------------------------------------------------------------- services
SvcId(x) == CASE x \in {"M", "MD"} -> 1 [] x = "N" -> 2 [] x \in {"C", "CD"} -> 3 [] x \in {"T", "TD"} -> 4
              [] x \in {"P", "PD"} -> 5 [] x \in {"E", "ED"} -> 6 [] x = "O" -> 8 [] x = "L" -> 17 [] OTHER -> 0
SvcVersion(x) == IF x \in {"C", "CD"} THEN 2 ELSE 1
Has(c, id) == \E i \in DOMAIN c.sv : SvcId(c.sv[i]) = id
HasDiag(c) == \E i \in DOMAIN c.sv : c.sv[i] = "MD"
NumDiags(x) == CASE x = "MD" -> 6 [] x = "CD" -> 18 [] x \in {"ED", "PD", "TD"} -> 1 [] OTHER -> 0
Visible(c) == SelectSeq([i \in 1..Len(c.sv) |-> i], LAMBDA i : SvcId(c.sv[i]) # 0)

\* ---------------------------------------------------------------- state
FreeTable(c) == [i \in 0..(c.maxev - 1) |-> <<>>]     \* entry: <<nn, en, ev1, ev2, ...>> or <<>>
NoEnum == [on |-> FALSE, el |-> 0, ids |-> {}, ack |-> FALSE]

\* what is left after a power-up that finds mode, canid, nn, hb, rst, nvs and tab in storage
Boot(c, p) ==
  [ mode |-> p.mode, canid |-> p.canid, nn |-> p.nn, hb |-> p.hb, ea |-> p.ea, rst |-> p.rst, nvs |-> p.nvs, tab |-> p.tab,
    cur |-> p.mode, learn |-> FALSE, enm |-> NoEnum, shb |-> c.base, seq |-> 0,
    un |-> p.mode = UNINIT /\ Has(c, 5), taught |-> 0, cons |-> 0, prod |-> 0, chg |-> 0, up |-> 0,
    tp |-> <<0, 0, 0, 0, 0>> ]

ResetStore(c) == [ mode |-> UNINIT, canid |-> 0, nn |-> 0, hb |-> FALSE, ea |-> FALSE, rst |-> TRUE,
                   nvs |-> [i \in 1..c.nvs |-> 0], tab |-> FreeTable(c) ]

Flag(b, v) == IF b THEN v ELSE 0
Flags(c, s) == Flag(Has(c, 6), 1) + Flag(Has(c, 5), 2) + Flag(s.cur = NORMAL, 4) + Flag(Has(c, 8), 16)
               + Flag(s.learn, 32) + Flag(Has(c, 1), 64)

Param(c, s, i) == CASE i = 0 -> 20 [] i = 1 -> c.manu [] i = 2 -> c.min [] i = 3 -> c.mtyp [] i = 4 -> c.maxev
                    [] i = 5 -> c.evs [] i = 6 -> c.nvs [] i = 7 -> c.maj [] i = 8 -> Flags(c, s) [] i = 9 -> c.cpuid
                    [] i = 10 -> 1 [] i \in 11..14 -> 0 [] i \in 15..18 -> c.cpu[i - 14] [] i = 19 -> c.cpuman
                    [] i = 20 -> c.beta

\* ------------------------------------------------------------ the table
Used(s) == {i \in DOMAIN s.tab : s.tab[i] # <<>>}
FreeSlots(s) == {i \in DOMAIN s.tab : s.tab[i] = <<>>}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Matching(s, nn, en) == {i \in Used(s) : s.tab[i][1] = nn /\ s.tab[i][2] = en}
Find(s, nn, en) == LET m == Matching(s, nn, en) IN IF m = {} THEN -1 ELSE Least(m)
FindEv1(s, v) == LET m == {i \in Used(s) : s.tab[i][3] = v} IN IF m = {} THEN -1 ELSE Least(m)
NewRow(c, nn, en) == <<nn, en>> \o [i \in 1..c.evs |-> 255]

\* ------------------------------------------------- outputs of one step
\* o: [s, tx, dx, cb, md, rb]; tx messages, dx RTR (1) and empty (0) frames, cb callbacks, md indicated modes
Out(s) == [s |-> s, tx |-> <<>>, dx |-> <<>>, cb |-> <<>>, md |-> <<>>, rb |-> 0]
Hi(n) == (n \div 256) % 256
Lo(n) == n % 256
\* is the message stored/consumed as one of the node's own events?
NumLong == {144, 145, 176, 177, 208, 209, 240, 241, 147, 148}      \* ACON/ACOF 0..3, ARON/AROF
NumShort == {152, 153, 184, 185, 216, 217, 248, 249}               \* ASON/ASOF 0..3

Pad(d) == [i \in 1..8 |-> IF i <= Len(d) THEN d[i] ELSE 0]
NNof(d) == d[2] * 256 + d[3]
ENof(d) == d[4] * 256 + d[5]

\* P08, P12: a message is offered to the user's event handler
Consume(c, o, d) ==
  LET p == Pad(d)
      idx == CASE p[1] \in NumLong -> Find(o.s, NNof(p), ENof(p)) [] p[1] \in NumShort -> Find(o.s, 0, ENof(p)) [] OTHER -> -1
  IN IF Has(c, 6) /\ c.ch = 1 /\ idx >= 0
     THEN [o EXCEPT !.cb = Append(@, <<0, idx, Len(d)>> \o d), !.s.cons = @ + 1]
     ELSE o

Send(c, o, m) == LET o1 == [o EXCEPT !.tx = Append(@, m)] IN IF Has(c, 8) THEN Consume(c, o1, m) ELSE o1
SendNN(c, o, opc, rest) == Send(c, o, <<opc, Hi(o.s.nn), Lo(o.s.nn)>> \o rest)
Grsp(c, o, opc, svc, code) == SendNN(c, o, 175, <<opc, svc, code>>)
CmdErr(c, o, code) == SendNN(c, o, 111, <<code>>)
Wrack(c, o) == SendNN(c, o, 89, <<>>)
ErrGrsp(c, o, opc, svc, code) == Grsp(c, CmdErr(c, o, code), opc, svc, code)
AckGrsp(c, o, opc, svc) == Grsp(c, Wrack(c, o), opc, svc, 0)
SendAll(c, o, ms) == FoldLeft(LAMBDA a, m : Send(c, a, m), o, ms)

\* ------------------------------------------------------------- CAN layer
StartEnum(o, ack) ==
  IF o.s.enm.on THEN o
  ELSE [o EXCEPT !.s.enm = [on |-> TRUE, el |-> 0, ids |-> {}, ack |-> ack], !.dx = Append(@, 1)]

EnumDone(c, o) ==
  IF o.s.enm.on /\ o.s.enm.el >= 100
  THEN LET free == (1..127) \ o.s.enm.ids
           id == IF free = {} THEN 1 ELSE Least(free)
           ack == o.s.enm.ack
           o1 == [o EXCEPT !.s.canid = id, !.s.enm = NoEnum]
       IN IF ack THEN SendNN(c, o1, 82, <<>>) ELSE o1
  ELSE o

CanMsg(c, o, d, len) ==
  IF len < 3 \/ NNof(d) # o.s.nn THEN o
  ELSE CASE d[1] = 117 -> IF d[4] \in 1..99
                          THEN AckGrsp(c, [o EXCEPT !.s.canid = d[4]], 117, 3)
                          ELSE ErrGrsp(c, o, 117, 3, ERR_ENIDX)
         [] d[1] = 93 -> StartEnum(o, TRUE)
         [] OTHER -> o

\* ---------------------------------------------------------- mode changes
Indicate(o, m) == [o EXCEPT !.md = Append(@, m)]
GotoSetup(c, o) == SendNN(c, Indicate([o EXCEPT !.s.cur = SETUP], SETUP), 80, <<>>)
GotoNormal(o, nn) == Indicate([o EXCEPT !.s.cur = NORMAL, !.s.mode = NORMAL, !.s.nn = nn], NORMAL)
GotoUninit(c, o) ==
  LET o1 == IF o.s.nn # 0 /\ o.s.cur = NORMAL THEN SendNN(c, o, 81, <<>>) ELSE o
  IN Indicate([o1 EXCEPT !.s.cur = UNINIT, !.s.mode = UNINIT, !.s.nn = 0, !.s.canid = 0], UNINIT)
LeaveSetup(o) == Indicate([o EXCEPT !.s.cur = o.s.mode], o.s.mode)

ChangeMode(c, o) == IF o.s.cur = UNINIT
                    THEN GotoSetup(c, IF Has(c, 3) THEN StartEnum(o, FALSE) ELSE o)
                    ELSE GotoUninit(c, o)
Renegotiate(c, o) ==
  CASE o.s.cur = SETUP -> LET o1 == LeaveSetup(o) IN IF o1.s.nn # 0 THEN SendNN(c, o1, 82, <<>>) ELSE o1
    [] o.s.cur = NORMAL -> GotoSetup(c, o)
    [] OTHER -> o

\* ----------------------------------------------------------- diagnostics
DiagMsg(c, o, i, code) ==
  LET x == c.sv[i]
      s == o.s
      two(n) == <<Hi(n), Lo(n)>>
      secs == c.bs + ((s.up + c.bm) \div 1000)
      Val(v) == SendNN(c, o, 199, <<i, code>> \o v)
  IN IF code \in 1..NumDiags(x)
     THEN Val(CASE x = "MD" /\ code = 2 -> two(secs \div 65536)
                [] x = "MD" /\ code = 3 -> two(secs)
                [] x = "MD" /\ code = 5 -> two(s.chg)
                [] x = "CD" /\ code = 1 -> two(s.tp[1])
                [] x = "CD" /\ code = 2 -> two(s.tp[2])
                [] x = "CD" /\ code = 3 -> two(s.tp[3])
                [] x = "CD" /\ code = 6 -> two(s.tp[4])
                [] x = "CD" /\ code = 9 -> two(s.tp[5])
                [] x = "ED" -> two(s.cons)
                [] x = "PD" -> two(s.prod)
                [] x = "TD" -> two(s.taught)
                [] OTHER -> <<0, 0>>)
     ELSE Grsp(c, o, 135, IF NumDiags(x) = 0 THEN 1 ELSE i, BAD_DIAG)
DiagAll(c, o, i) ==
  LET n == NumDiags(c.sv[i])
  IN FoldLeft(LAMBDA a, k : DiagMsg(c, a, i, k), SendNN(c, o, 199, <<i, 0, 0, n>>), [k \in 1..n |-> k])

RequestDiag(c, o, d, len) ==
  CASE NNof(d) # o.s.nn -> o
    [] len < 5 -> Grsp(c, o, 135, 1, ERR_CMD)
    [] d[4] > Len(c.sv) -> Grsp(c, o, 135, 1, BAD_SERVICE)
    [] d[4] = 0 -> FoldLeft(LAMBDA a, i : DiagAll(c, a, i), o, Visible(c))
    [] SvcId(c.sv[d[4]]) = 0 -> Grsp(c, o, 135, 1, BAD_SERVICE)
    [] d[5] = 0 -> DiagAll(c, o, d[4])
    [] OTHER -> DiagMsg(c, o, d[4], d[5])

\* ---------------------------------------------------- minimum node service
ModeMsg(c, o, d, len) ==
  LET cur == o.s.cur
      m == d[4]
  IN CASE NNof(d) # o.s.nn -> o
       [] len < 4 -> Grsp(c, o, 118, 1, ERR_CMD)
       [] m = 255 -> IF cur \in {SETUP, NORMAL} THEN GotoUninit(c, Grsp(c, o, 118, 1, 0)) ELSE o
       [] m = 0 -> CASE cur = NORMAL -> GotoSetup(c, Grsp(c, o, 118, 1, 0))
                     [] cur = SETUP -> Grsp(c, o, 118, 1, BAD_MODE)
                     [] OTHER -> o
       [] m = 1 -> CASE cur = NORMAL -> Grsp(c, o, 118, 1, 0)
                     [] cur = SETUP -> Grsp(c, o, 118, 1, BAD_MODE)
                     [] OTHER -> o
       [] m \in {12, 13} -> [o EXCEPT !.s.hb = (m = 12)]
       [] OTHER -> IF cur # NORMAL THEN Grsp(c, o, 118, 1, ERR_CMD) ELSE o

ServiceDefs(c, o, d, len) ==
  CASE NNof(d) # o.s.nn -> o
    [] len < 4 -> Grsp(c, o, 120, 1, ERR_CMD)
    [] d[4] = 0 -> FoldLeft(LAMBDA a, i : SendNN(c, a, 172, <<i, SvcId(c.sv[i]), SvcVersion(c.sv[i])>>),
                            SendNN(c, o, 172, <<0, 0, Len(Visible(c))>>), Visible(c))
    [] d[4] > Len(c.sv) -> Grsp(c, o, 120, 1, BAD_SERVICE)
    [] SvcId(c.sv[d[4]]) = 0 -> Grsp(c, o, 120, 1, BAD_SERVICE)
    [] OTHER -> SendNN(c, o, 231, <<d[4], SvcId(c.sv[d[4]]), 0, 0, 0>>)

ParamMsg(c, o, d, len) ==
  CASE NNof(d) # o.s.nn -> o
    [] len < 4 -> Grsp(c, o, 115, 1, ERR_CMD)
    [] d[4] = 0 -> FoldLeft(LAMBDA a, i : SendNN(c, a, 155, <<i, Param(c, o.s, i)>>), o, [i \in 1..21 |-> i - 1])
    [] d[4] <= 20 -> SendNN(c, o, 155, <<d[4], Param(c, o.s, d[4])>>)
    [] OTHER -> ErrGrsp(c, o, 115, 1, ERR_PARIDX)

MnsMsg(c, o, d, len, diag) ==
  LET s == o.s
      own == NNof(d) = s.nn
  IN CASE d[1] = 16 -> IF s.cur = SETUP                                                                       \* RQNP
                       THEN Send(c, o, <<239>> \o [i \in 1..7 |-> Param(c, s, <<1, 2, 3, 4, 5, 6, 7>>[i])]) ELSE o
       [] d[1] = 115 -> ParamMsg(c, o, d, len)                                                                \* RQNPN
       [] d[1] = 66 -> IF s.cur # SETUP THEN o                                                                \* SNN
                       ELSE IF len < 3 THEN Grsp(c, o, 66, 1, ERR_CMD)
                       ELSE [SendNN(c, GotoNormal(o, NNof(d)), 82, <<>>) EXCEPT !.s.chg = @ + 1]
       [] d[1] = 80 -> IF s.cur = SETUP THEN LeaveSetup(o) ELSE o                                             \* RQNN
       [] d[1] = 13 -> IF s.nn > 0 THEN SendNN(c, o, 182, <<c.manu, c.mtyp, Flags(c, s)>>) ELSE o             \* QNN
       [] d[1] = 17 -> IF s.cur = SETUP \/ s.learn THEN Send(c, o, <<226>> \o c.name) ELSE o                  \* RQMN
       [] d[1] = 120 -> ServiceDefs(c, o, d, len)                                                             \* RQSD
       [] d[1] = 118 -> ModeMsg(c, o, d, len)                                                                 \* MODE
       [] d[1] = 79 -> IF len >= 3 /\ own                                                                     \* NNRSM
                       THEN [SendNN(c, o, 81, <<>>) EXCEPT !.rb = 2] ELSE o
       [] d[1] = 94 -> IF len >= 3 /\ own THEN [o EXCEPT !.rb = IF @ = 0 THEN 1 ELSE @] ELSE o                \* NNRST
       [] d[1] = 135 -> IF diag THEN RequestDiag(c, o, d, len) ELSE o                                         \* RDGN
       [] OTHER -> o

\* ---------------------------------------------------------- node variables
NvMsg(c, o, d, len) ==
  LET s == o.s
      i == d[4]
      bad == CmdErr(c, Grsp(c, o, d[1], 2, ERR_NVIDX), ERR_NVIDX)
  IN IF d[1] \notin {113, 150, 142} \/ NNof(d) # s.nn THEN o
     ELSE IF d[1] = 113
     THEN CASE len < 4 -> Grsp(c, o, 113, 2, ERR_CMD)
            [] i > c.nvs -> bad
            [] i = 0 -> FoldLeft(LAMBDA a, k : SendNN(c, a, 151, <<k, s.nvs[k]>>),
                                 SendNN(c, o, 151, <<0, c.nvs>>), [k \in 1..c.nvs |-> k])
            [] OTHER -> SendNN(c, o, 151, <<i, s.nvs[i]>>)
     ELSE CASE len < 5 -> Grsp(c, o, d[1], 2, ERR_CMD)
            [] i = 0 \/ i > c.nvs -> bad
            [] OTHER -> LET o1 == [o EXCEPT !.s.nvs[i] = d[5]]
                        IN IF d[1] = 150 THEN Wrack(c, o1) ELSE SendNN(c, o1, 151, <<i, d[5]>>)

\* ---------------------------------------------------------- event teaching
Put(o, i, row) == [o EXCEPT !.s.tab[i] = row]
Taught(c, o, opc) == [AckGrsp(c, o, opc, 4) EXCEPT !.s.taught = @ + 1]
\* P05: a new pair takes a free entry; which one is the implementation's choice
PickSlot(s, h, P(_)) ==
  LET hs == {i \in DOMAIN h : i \in FreeSlots(s) /\ \E k \in DOMAIN h[i] : P(h[i][k])}
  IN IF hs # {} THEN Least(hs) ELSE Least(FreeSlots(s))

Learn(c, o, d, len, h) ==
  LET s == o.s
      nn == NNof(d)  en == ENof(d)  k == d[6]  v == d[7]
      again == IF k = 1 /\ v > 0 THEN FindEv1(s, v) ELSE -1
      old == Find(s, nn, en)
  IN CASE ~s.learn -> o
       [] len < 7 -> Grsp(c, o, 210, 4, ERR_CMD)
       [] k = 0 \/ k > c.evs -> ErrGrsp(c, o, 210, 4, ERR_EVIDX)
       [] again >= 0 -> Taught(c, Put(o, again, [s.tab[again] EXCEPT ![1] = nn, ![2] = en]), 210)
       [] old >= 0 -> Taught(c, Put(o, old, [s.tab[old] EXCEPT ![2 + k] = v]), 210)
       [] FreeSlots(s) = {} -> ErrGrsp(c, o, 210, 4, ERR_FULL)
       [] OTHER -> LET i == PickSlot(s, h, LAMBDA row : row[1] = nn /\ row[2] = en)
                   IN Taught(c, Put(o, i, [NewRow(c, nn, en) EXCEPT ![2 + k] = v]), 210)

LearnIndex(c, o, d, len) ==
  LET s == o.s
      i == d[6]  k == d[7]
      row == IF s.tab[i] = <<>> THEN NewRow(c, 0, 0) ELSE s.tab[i]
  IN CASE ~s.learn -> o
       [] len < 8 -> Grsp(c, o, 245, 4, ERR_CMD)
       [] i >= c.maxev -> Grsp(c, o, 245, 4, ERR_ENIDX)
       [] k = 0 \/ k > c.evs -> ErrGrsp(c, o, 245, 4, ERR_EVIDX)
       [] OTHER -> Taught(c, Put(o, i, [row EXCEPT ![1] = NNof(d), ![2] = ENof(d), ![2 + k] = d[8]]), 245)

Unlearn(c, o, d, len) ==
  LET s == o.s
      i == Find(s, NNof(d), ENof(d))
  IN CASE ~s.learn -> o
       [] len < 5 -> Grsp(c, o, 149, 4, ERR_CMD)
       [] i < 0 -> ErrGrsp(c, o, 149, 4, ERR_EVENT)
       [] OTHER -> AckGrsp(c, Put(o, i, <<>>), 149, 4)

ReadByPair(c, o, d, len) ==
  LET s == o.s
      i == Find(s, NNof(d), ENof(d))
      k == d[6]
      ans(j, v) == <<211, d[2], d[3], d[4], d[5], j, v>>
  IN CASE ~s.learn -> o
       [] len < 6 -> Grsp(c, o, 178, 4, ERR_CMD)
       [] i < 0 -> ErrGrsp(c, o, 178, 4, ERR_EVENT)
       [] k > c.evs -> ErrGrsp(c, o, 178, 4, ERR_EVIDX)
       [] k = 0 -> SendAll(c, o, <<ans(0, c.evs)>> \o [j \in 1..c.evs |-> ans(j, s.tab[i][2 + j])])
       [] OTHER -> Send(c, o, ans(k, s.tab[i][2 + k]))

ReadByIndex(c, o, d, len) ==
  LET s == o.s
      i == d[4]  k == d[5]
  IN CASE len < 5 -> Grsp(c, o, 156, 4, ERR_CMD)
       [] i \notin Used(s) -> ErrGrsp(c, o, 156, 4, ERR_ENIDX)
       [] k > c.evs -> ErrGrsp(c, o, 156, 4, ERR_EVIDX)
       [] k = 0 -> FoldLeft(LAMBDA a, j : SendNN(c, a, 181, <<i, j, s.tab[i][2 + j]>>),
                            SendNN(c, o, 181, <<i, 0, c.evs>>), [j \in 1..c.evs |-> j])
       [] OTHER -> SendNN(c, o, 181, <<i, k, s.tab[i][2 + k]>>)

RowMsg(s, i) == <<Hi(s.tab[i][1]), Lo(s.tab[i][1]), Hi(s.tab[i][2]), Lo(s.tab[i][2]), i>>

TeachMsg(c, o, d, len, h) ==
  LET s == o.s
      own == NNof(d) = s.nn
  IN CASE d[1] = 118 -> IF own /\ len >= 4 /\ d[4] \in {8, 9} THEN [o EXCEPT !.s.learn = (d[4] = 8)] ELSE o
       [] d[1] = 83 -> [o EXCEPT !.s.learn = own]                                                             \* NNLRN
       [] d[1] = 84 -> IF own THEN [o EXCEPT !.s.learn = FALSE] ELSE o                                        \* NNULN
       [] d[1] = 210 -> Learn(c, o, d, len, h)
       [] d[1] = 245 -> LearnIndex(c, o, d, len)
       [] d[1] = 149 -> Unlearn(c, o, d, len)
       [] d[1] = 178 -> ReadByPair(c, o, d, len)
       [] ~own -> o
       [] d[1] = 88 -> SendNN(c, o, 116, <<Cardinality(Used(s))>>)                                            \* RQEVN
       [] d[1] = 86 -> SendNN(c, o, 112, <<Cardinality(FreeSlots(s))>>)                                       \* NNEVN
       [] d[1] = 87 -> FoldLeft(LAMBDA a, i : SendNN(c, a, 242, RowMsg(s, i)), o,                             \* NERD
                                SetToSortSeq(Used(s), LAMBDA a, b : a < b))
       [] d[1] = 114 -> IF d[4] \in Used(s) THEN SendNN(c, o, 242, RowMsg(s, d[4]))                           \* NENRD
                        ELSE ErrGrsp(c, o, 114, 4, ERR_ENIDX)
       [] d[1] = 156 -> ReadByIndex(c, o, d, len)                                                             \* REVAL
       [] d[1] = 85 -> IF len < 3 THEN o                                                                      \* NNCLR
                       ELSE IF ~s.learn THEN ErrGrsp(c, o, 85, 4, ERR_NOTLRN)
                       ELSE AckGrsp(c, [o EXCEPT !.s.tab = FreeTable(c), !.s.rst = @ \/ Has(c, 5)], 85, 4)
       [] OTHER -> o

\* --------------------------------------------------------- producer, consumer
\* P10
RequestMsg(c, o, d, raw) ==
  LET idx == CASE d[1] = 146 -> Find(o.s, NNof(d), ENof(d))
               [] d[1] = 154 /\ NNof(d) \in {0, o.s.nn} -> Find(o.s, 0, ENof(d))
               [] OTHER -> -1
  IN IF c.ph = 1 /\ idx >= 0 /\ o.s.tab[idx][3] # 0 THEN [o EXCEPT !.cb = Append(@, <<1, idx, Len(raw)>> \o raw)] ELSE o

\* P09, P11: a default event: own node number, an event number not in use, EV1 = v, other variables 0
CreateDefault(c, o, v, h) ==
  LET s == o.s
      unused(en) == Matching(s, s.nn, en) = {}
      fits(row) == row[1] = s.nn /\ row[3] = v /\ row[2] # 0 /\ unused(row[2])
      i == PickSlot(s, h, fits)
      en == IF i \in DOMAIN h /\ \E k \in DOMAIN h[i] : fits(h[i][k])
            THEN h[i][Least({k \in DOMAIN h[i] : fits(h[i][k])})][2]
            ELSE Least({n \in 1..(Cardinality(DOMAIN s.tab) + 1) : unused(n)})
  IN IF FreeSlots(s) = {} THEN o
     ELSE Put(o, i, <<s.nn, en, v>> \o [k \in 1..(c.evs - 1) |-> 0])

EventOp(short, on, n, resp) ==
  IF resp THEN IF short THEN <<<<157, 158>>, <<189, 190>>, <<221, 222>>, <<253, 254>>>>[n + 1][IF on THEN 1 ELSE 2]
               ELSE <<<<147, 148>>, <<179, 180>>, <<212, 213>>, <<243, 244>>>>[n + 1][IF on THEN 1 ELSE 2]
  ELSE IF short THEN <<<<152, 153>>, <<184, 185>>, <<216, 217>>, <<248, 249>>>>[n + 1][IF on THEN 1 ELSE 2]
       ELSE <<<<144, 145>>, <<176, 177>>, <<208, 209>>, <<240, 241>>>>[n + 1][IF on THEN 1 ELSE 2]

SendRow(c, o, i, on, data, resp) ==
  LET s == o.s
      short == s.tab[i][1] = 0
      nn == IF short THEN s.nn ELSE s.tab[i][1]
  IN Send(c, o, <<EventOp(short, on, Len(data), resp), Hi(nn), Lo(nn), Hi(s.tab[i][2]), Lo(s.tab[i][2])>> \o data)

SendEvent(c, o, on, v, data, h) ==
  LET o1 == IF FindEv1(o.s, v) >= 0 THEN o ELSE CreateDefault(c, o, v, h)
      i == FindEv1(o1.s, v)
  IN IF i < 0 THEN o ELSE [SendRow(c, o1, i, on, data, FALSE) EXCEPT !.s.prod = @ + 1]

DefaultEvents(c, o, h) ==
  IF o.s.un /\ o.s.mode = NORMAL
  THEN [FoldLeft(LAMBDA a, v : CreateDefault(c, a, v, h), o, [v \in 1..c.prod |-> v]) EXCEPT !.s.un = FALSE]
  ELSE o

\* ------------------------------------------------------------ one message
Handle(c, o, raw, h) ==
  LET d == Pad(raw)
      len == Len(raw)
      one(a, x) == CASE x \in {"M", "MD"} -> MnsMsg(c, a, d, len, x = "MD")
                     [] x \in {"C", "CD"} -> CanMsg(c, a, d, len)
                     [] x = "N" -> NvMsg(c, a, d, len)
                     [] x \in {"T", "TD"} -> TeachMsg(c, a, d, len, h)
                     [] x \in {"E", "ED"} -> Consume(c, a, raw)
                     [] x \in {"P", "PD"} -> RequestMsg(c, a, d, raw)
                     [] OTHER -> a
  IN FoldLeft(one, o, c.sv)

\* P14: a frame arrives.  f: [id, x (extended), r (RTR), d]
Frame(c, o, f, h) ==
  LET from == f.id % 128
      clash == from = o.s.canid /\ Len(f.d) > 0
      o1 == IF clash THEN StartEnum(o, FALSE) ELSE o
  IN CASE f.x = 1 -> o
       [] f.r = 1 -> [o EXCEPT !.dx = Append(@, 0)]
       [] o.s.enm.on /\ Len(f.d) = 0 -> IF from > 0 THEN [o EXCEPT !.s.enm.ids = @ \cup {from}] ELSE o
       [] OTHER -> Handle(c, o1, f.d, h)

\* a: <<0>> change mode, <<1>> renegotiate, <<2>> enumerate, <<3, on, v, n, data..>> send event,
\*    <<4, on, idx, n, data..>> send status response, <<5, v>> the application switches event acknowledgement
Act(c, o, a, h) ==
  CASE a[1] = 0 -> ChangeMode(c, o)
    [] a[1] = 1 -> Renegotiate(c, o)
    [] a[1] = 2 -> StartEnum(o, FALSE)
    [] a[1] = 3 -> IF Has(c, 5) THEN SendEvent(c, o, a[2] = 1, a[3], SubSeq(a, 5, 4 + a[4]), h) ELSE o
    [] a[1] = 5 -> [o EXCEPT !.s.ea = a[2] = 1]
    [] a[1] = 9 -> o
    [] a[1] = 4 -> IF Has(c, 5) THEN SendRow(c, o, a[3], a[2] = 1, SubSeq(a, 5, 4 + a[4]), TRUE) ELSE o

\* P20
Heartbeat(c, o) ==
  LET s == o.s
  IN IF s.mode = NORMAL /\ s.cur # SETUP /\ s.hb /\ s.shb > 5000 /\ Has(c, 1)
     THEN [SendNN(c, o, 171, <<s.seq, 0, 0>>) EXCEPT !.s.seq = (@ + 1) % 256, !.s.shb = 0]
     ELSE o

Min2(a, b) == IF a < b THEN a ELSE b
Advance(s, dt) == [s EXCEPT !.shb = Min2(@ + dt, CAP), !.up = @ + dt,
                            !.enm.el = IF s.enm.on THEN Min2(@ + dt, CAP) ELSE 0]

\* what the module does by itself once the stimulus is dealt with
Settle(c, o, h) == Heartbeat(c, DefaultEvents(c, o, h))

\* a restart (rb = 1) or factory reset (rb = 2) asked for during the step
Restart(c, o) ==
  CASE o.rb = 0 -> o
    [] o.rb = 1 -> [o EXCEPT !.s = [Boot(c, o.s) EXCEPT !.tp = o.s.tp], !.md = Append(@, o.s.mode)]
    [] OTHER -> [o EXCEPT !.s = [Boot(c, ResetStore(c)) EXCEPT !.tp = o.s.tp], !.md = Append(@, UNINIT)]

Item(c, o, st, h) == IF st.k = "F" THEN Frame(c, o, st.f, h) ELSE Act(c, o, st.a, h)

Step(c, s0, st, h) ==
  LET o == Out(Advance(s0, st.dt))
      o2 == CASE st.k \in {"F", "A"} -> Item(c, EnumDone(c, o), st, h)
              [] st.k = "W" -> EnumDone(c, o)
              [] st.k = "Q" -> FoldLeft(LAMBDA a, x : Item(c, DefaultEvents(c, a, h), x, h), EnumDone(c, o), st.q)
              [] st.k \in {"B", "X"} -> [Out([Boot(c, s0) EXCEPT !.tp = s0.tp]) EXCEPT !.md = <<s0.mode>>]
  IN Restart(c, IF o2.rb = 0 THEN Settle(c, o2, h) ELSE o2)
=============================================================================
