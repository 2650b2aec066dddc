------------------------------ MODULE NodeTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of the implementation: every record of the    *)
(* trace file must be a step of Node.  A record that is not is printed as   *)
(* MISMATCH with what the specification allows, and the rest of that        *)
(* execution is skipped.                                                    *)
(***************************************************************************)
EXTENDS Node, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,       \* next record
          ns,      \* node number -> [c |-> configuration, s |-> state, up |-> has power]
          skip     \* execution being skipped after a mismatch ("" if none)
vars == <<l, ns, skip>>

Bytes4(row) == IF row = <<>> THEN <<255, 255, 255, 255>> ELSE <<Hi(row[1]), Lo(row[1]), Hi(row[2]), Lo(row[2])>>
Evs(c, row) == IF row = <<>> THEN [i \in 1..c.evs |-> 255] ELSE [i \in 1..c.evs |-> row[2 + i]]

\* --- recorded storage contents
Row(e) == IF Len(e) = 1 THEN <<>> ELSE SubSeq(e, 2, Len(e))
EvDiff(r) == LET D == {r.ev[k][1] : k \in DOMAIN r.ev}
             IN [i \in D |-> Row(CHOOSE e \in {r.ev[k] : k \in DOMAIN r.ev} : e[1] = i)]
\* what each entry held on the way (between processing rounds) and at the end
Hints(r) == LET D == {r.ev[k][1] : k \in DOMAIN r.ev} \cup {r.hs[k][1] : k \in DOMAIN r.hs}
                rows(q, i) == SelectSeq(q, LAMBDA e : e[1] = i /\ Len(e) > 1)
                all(i) == rows(r.hs, i) \o rows(r.ev, i)
            IN [i \in D |-> [k \in DOMAIN all(i) |-> Row(all(i)[k])]]
NvDiff(r) == LET D == {r.nv[k][1] : k \in DOMAIN r.nv}
             IN [i \in D |-> (CHOOSE e \in {r.nv[k] : k \in DOMAIN r.nv} : e[1] = i)[2]]
EvChange(s, t) == LET D == {i \in DOMAIN s.tab : s.tab[i] # t.tab[i]} IN [i \in D |-> t.tab[i]]
NvChange(s, t) == LET D == {i \in DOMAIN s.nvs : s.nvs[i] # t.nvs[i]} IN [i \in D |-> t.nvs[i]]
Settings(s) == (IF s.hb THEN 1 ELSE 0) + (IF s.ea THEN 2 ELSE 0)
Disk(s) == <<s.mode, s.canid, s.nn, Settings(s), IF s.rst THEN 1 ELSE 0>>
Live(s) == <<s.mode, s.canid, s.nn, Settings(s)>>
Adopt(s, r) == [s EXCEPT !.mode = r.dk[1], !.canid = r.dk[2], !.nn = r.dk[3], !.hb = r.dk[4] % 2 = 1, !.ea = r.dk[4] >= 2, !.rst = r.dk[5] = 1,
                         !.nvs = NvDiff(r) @@ @, !.tab = EvDiff(r) @@ @]

\* --- P24: what is stored is old or new, byte by byte
(* (during a factory reset, which erases first, also erased)                *)
Mixed(c, s, t, r, reset) ==
  LET ok1(x, a, b) == x = a \/ x = b \/ (reset /\ x = 255)
      ev == EvDiff(r)  nv == NvDiff(r)
      rowOk(i) == LET x == Bytes4(ev[i]) a == Bytes4(s.tab[i]) b == Bytes4(t.tab[i])
                      xe == Evs(c, ev[i]) ae == Evs(c, s.tab[i]) be == Evs(c, t.tab[i])
                  IN /\ \A k \in 1..4 : ok1(x[k], a[k], b[k])
                     /\ ev[i] # <<>> => \A k \in 1..c.evs : ok1(xe[k], ae[k], be[k])
  IN /\ ok1(r.dk[1], s.mode, t.mode)
     /\ ok1(r.dk[2], s.canid, t.canid)
     /\ ok1(Hi(r.dk[3]), Hi(s.nn), Hi(t.nn)) /\ ok1(Lo(r.dk[3]), Lo(s.nn), Lo(t.nn))
     /\ ok1(r.dk[4], Disk(s)[4], Disk(t)[4]) /\ ok1(r.dk[5], Disk(s)[5], Disk(t)[5])
     /\ \A i \in DOMAIN nv : ok1(nv[i], s.nvs[i], t.nvs[i])
     /\ \A i \in DOMAIN ev : rowOk(i)

\* --- frames
IsHb(m) == Len(m) > 0 /\ m[1] = 171
Msg(fr) == SubSeq(fr, 5, Len(fr))
Msgs(r) == [k \in DOMAIN r.tx |-> Msg(r.tx[k])]
NoHb(ms) == SelectSeq(ms, LAMBDA m : ~IsHb(m))
OnlyHb(ms) == SelectSeq(ms, IsHb)
Last30(ms) == IF Len(ms) > 30 THEN SubSeq(ms, Len(ms) - 29, Len(ms)) ELSE ms
Header == 11 * 128
Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]

TxOk(r, o) == LET got == NoHb(Msgs(r)) want == NoHb(o.tx) IN got = want \/ got = Last30(want)
Truncated(r, o) == Len(NoHb(o.tx)) > 30 /\ NoHb(Msgs(r)) # NoHb(o.tx)

Heard(r) == \/ r.k = "F" /\ r.f.x = 0 /\ r.f.r = 0
            \/ r.k = "Q" /\ \E i \in DOMAIN r.q : r.q[i].k = "F" /\ r.q[i].f.x = 0 /\ r.q[i].f.r = 0

\* the names of the observations that differ from what the specification allows
Wrong(c, s, o, r) ==
  LET t == o.s
      restart == o.rb # 0 \/ r.k \in {"B", "X"}
      canid == IF o.rb # 0 THEN s.canid ELSE t.canid
      w(ok, name) == IF ok THEN {} ELSE {name}
  IN UNION {
       w(TxOk(r, o), "tx"),
       w(OnlyHb(Msgs(r)) = OnlyHb(o.tx), "hb"),
       w(\A k \in DOMAIN r.tx : r.tx[k][1] = Header + canid /\ r.tx[k][2] = 0 /\ r.tx[k][3] = 0, "hdr"),
       w([k \in DOMAIN r.dx |-> r.dx[k][3]] = o.dx, "dx"),
       w(\A k \in DOMAIN r.dx : r.dx[k][1] \in {Header + s.canid, Header + t.canid} /\ r.dx[k][2] = 0 /\ r.dx[k][4] = 0, "dxh"),
       w(IF r.k = "Q" /\ Has(c, 8) THEN Bag(r.cb) = Bag(o.cb) ELSE r.cb = o.cb, "cb"),
       w(r.md = o.md, "md"),
       w(restart \/ (r.ac > 0) = (Heard(r) \/ o.tx # <<>>), "ac"),
       w(r.fl = Flags(c, t), "fl"),
       w((r.rb > 0) = (o.rb > 0) \/ r.k = "B", "rb"),
       w(r.lv = Live(t), "lv"),
       w(r.dk = Disk(t), "dk"),
       w(NvDiff(r) = NvChange(s, t), "nv"),
       w(EvDiff(r) = EvChange(s, t), "ev"),
       w(r.rm = 0, "rm"),
       w(r.sw = 0, "sw"),
       w(r.k = "X" => r.im = 0, "im"),
       w(\A k \in DOMAIN r.cp : Mixed(c, s, t, r.cp[k], o.rb = 2), "cp") }

\* the power failed during the step and came back: something between s and t is stored
WrongCut(c, s, o, r) ==
  LET w(ok, name) == IF ok THEN {} ELSE {name}
      a == Adopt(s, r)
  IN UNION { w(Mixed(c, s, o.s, r, o.rb = 2), "cp"), w(r.md = <<a.mode>>, "md"), w(r.lv = Live(a), "lv"), w(r.rm = 0, "rm"), w(r.sw = 0, "sw"),
             w(r.fl = Flags(c, Boot(c, a)), "fl"), w(r.tx = <<>> /\ r.dx = <<>>, "tx") }

Report(r, n, o, bad) ==
  PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, bad |-> SetToSeq(bad),
         own |-> n.s.nn, learn |-> n.s.learn, cur |-> n.s.cur, enum |-> n.s.enm.on, un |-> n.s.un,
         want |-> [tx |-> o.tx, dx |-> o.dx, cb |-> o.cb, md |-> o.md, rb |-> o.rb, lv |-> Live(o.s), dk |-> Disk(o.s),
                   fl |-> Flags(n.c, o.s), nv |-> ToString(NvChange(n.s, o.s)), ev |-> ToString(EvChange(n.s, o.s))]]))

NodeStep(r, n) ==
  LET o == Step(n.c, n.s, r, Hints(r))
      bad == IF r.cut = 1 THEN WrongCut(n.c, n.s, o, r) ELSE Wrong(n.c, n.s, o, r)
  IN IF bad = {}
     THEN /\ (IF r.cut = 0 /\ Truncated(r, o) THEN PrintT("NOTE " \o ToJson([t |-> r.t, line |-> l, what |-> "truncated"])) ELSE TRUE)
          /\ ns' = [ns EXCEPT ![r.n].s = IF r.cut = 1 THEN [Boot(n.c, Adopt(n.s, r)) EXCEPT !.tp = n.s.tp] ELSE o.s]
          /\ UNCHANGED skip
     ELSE /\ Report(r, n, o, bad)
          /\ skip' = r.t
          /\ UNCHANGED ns

Init == l = 1 /\ ns = <<>> /\ skip = ""

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Trace[l] IN
     IF r.t = skip THEN UNCHANGED <<ns, skip>>
     ELSE CASE r.k = "C" -> /\ ns' = (r.n :> [c |-> r.c, s |-> 0, f |-> <<>>]) @@ (IF r.n = 1 THEN <<>> ELSE ns)
                            /\ UNCHANGED skip
            [] r.k = "I" -> LET c == ns[r.n].c
                                p == [mode |-> r.dk[1], canid |-> r.dk[2], nn |-> r.dk[3], hb |-> r.dk[4] % 2 = 1, ea |-> r.dk[4] >= 2, rst |-> r.dk[5] = 1,
                                      nvs |-> NvDiff(r) @@ [i \in 1..c.nvs |-> 0], tab |-> EvDiff(r) @@ FreeTable(c)]
                            IN IF r.vg = 1 /\ p # ResetStore(c)
                               THEN /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, bad |-> <<"virgin">>, own |-> 0, learn |-> FALSE,
                                               cur |-> 255, enum |-> FALSE, un |-> TRUE, want |-> ToString(ResetStore(c))]))
                                    /\ skip' = r.t /\ UNCHANGED ns
                               ELSE ns' = [ns EXCEPT ![r.n].s = Boot(c, p)] /\ UNCHANGED skip
            [] r.k = "O" -> ns' = [ns EXCEPT ![r.n].s.tp = r.o] /\ UNCHANGED skip
            [] r.k = "crash" -> /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, bad |-> <<"crash">>, why |-> r.why, own |-> 0, learn |-> FALSE,
                                               cur |-> 0, enum |-> FALSE, un |-> FALSE, want |-> 0]))
                                /\ skip' = r.t /\ UNCHANGED ns
            [] OTHER -> NodeStep(r, ns[r.n])

Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
