---------------------------- MODULE LongMsgTrace ----------------------------
EXTENDS LongMsg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, s, skip
vars == <<l, c, s, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Busy(cc, t) == IF cc.ex THEN Len(t.snd) ELSE IF t.snd = <<>> THEN 0 ELSE 1

\* a turn of the main loop in which the fragments txs were sent and cbs reported
Turn(r) ==
  LET s0 == Older(s, r.a)
      \* receive timeouts
      gone == {k \in MayBeLate(c, s0) : k \in Late(c, s0) \/ \E i \in DOMAIN r.cb : r.cb[i][1] = TIMEOUT /\ r.cb[i][2] = k}
      o == FoldLeft(TimeOut, [s |-> s0, cb |-> <<>>], SetToSeq(gone))
      who(w, d) == {i \in DOMAIN w.s.snd : w.s.snd[i].st = d[2] /\ w.s.snd[i].wait >= 0 /\ May(c, w.s, w.s.snd[i]) /\ Frag(w.s.snd[i]) = d}
      z == FoldLeft(LAMBDA w, d : IF ~w.ok THEN w
                                  ELSE IF Len(d) < 3 \/ who(w, d) = {} THEN [w EXCEPT !.ok = FALSE]
                                  ELSE [w EXCEPT !.s = SendFrag(w.s, CHOOSE i \in who(w, d) : TRUE)],
                    [s |-> o.s, ok |-> TRUE], r.tx)
      t == Waited(c, [z.s EXCEPT !.snd = [i \in DOMAIN @ |-> IF @[i].wait < 0 THEN [@[i] EXCEPT !.wait = 0] ELSE @[i]]])
  IN [s |-> t, bad |-> W(Bag(r.cb) = Bag(o.cb), "timeout") \cup W(z.ok, "fragment") \cup W(z.ok => Fair(c, t), "starved"),
      want |-> [cb |-> o.cb, next |-> [i \in DOMAIN s.snd |-> Frag(s.snd[i])], age |-> [i \in DOMAIN s0.snd |-> s0.snd[i].age]]]

Judge(r) ==
  CASE r.k = "P" -> Turn(r)
    [] r.k = "Z" -> LET yes == Accepts(c, s, r.s)
                    IN [s |-> IF yes THEN StartSend(s, r.s, r.a) ELSE s,
                        bad |-> W((r.ret = 1) = yes, "accepted") \cup W(r.tx = IF yes THEN <<Header(c, r.s, r.a)>> ELSE <<>>, "header") \cup W(r.cb = <<>>, "callback"),
                        want |-> [tx |-> IF yes THEN <<Header(c, r.s, r.a)>> ELSE <<>>]]
    [] r.k = "R" -> LET o == Receive(c, s, r.a)
                    IN [s |-> o.s, bad |-> W(r.cb = o.cb, "callback") \cup W(r.tx = <<>>, "reply"), want |-> [cb |-> o.cb]]
    [] r.k = "crash" -> [s |-> s, bad |-> {"crash"}, want |-> 0]
    [] OTHER -> [s |-> s, bad |-> W(r.tx = <<>> /\ r.cb = <<>>, "quiet"), want |-> 0]

Conf(r) ==
  CASE r.k = "N" -> [ex |-> r.ex = 1, rctx |-> r.a[1], blen |-> r.a[2], sctx |-> r.a[3], crc |-> r.a[4] = 1, delay |-> 20, tmo |-> 5000, subs |-> {}]
    [] r.k = "D" -> [c EXCEPT !.delay = r.a]
    [] r.k = "O" -> [c EXCEPT !.tmo = r.a]
    [] r.k = "U" -> [c EXCEPT !.subs = Range(r.a), !.blen = IF c.ex THEN @ ELSE r.b]
    [] OTHER -> c

Init == l = 1 /\ c = 0 /\ s = New /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l] IN
           IF r.t = skip THEN UNCHANGED <<c, s, skip>>
           ELSE LET n == Conf(r)
                    j == Judge(r)
                    t == IF r.k = "N" THEN New ELSE j.s
                    bad == j.bad \cup (IF r.k = "crash" THEN {} ELSE W(r.bs = Busy(n, t), "busy"))
                IN IF bad = {} THEN c' = n /\ s' = t /\ UNCHANGED skip
                   ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, bad |-> SetToSeq(bad), ex |-> (IF r.k = "N" THEN r.ex = 1 ELSE c.ex), want |-> j.want]))
                        /\ skip' = r.t /\ UNCHANGED <<c, s>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
