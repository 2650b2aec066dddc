-------------------------- MODULE GridConnectTrace --------------------------
EXTENDS GridConnect, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, skip
vars == <<l, g, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
Frame(f) == [id |-> f.id, x |-> f.x = 1, r |-> f.r = 1, d |-> f.d]
Match(txts, fs) == Len(txts) = Len(fs) /\ \A i \in DOMAIN fs : fs[i].n = Len(fs[i].d) /\ Decode(txts[i]) = Frame(fs[i])
\* texts with unused identifier bits may be refused as well
Strict(txts) == SelectSeq(txts, LAMBDA t : ~Loose(t))
EncOk(r) == LET v == Valid(r.f.id, r.f.x = 1, r.f.n) IN IF v THEN r.ok = 1 /\ r.txt = Encode(Frame(r.f)) ELSE r.ok = 0 /\ r.txt = <<>>
DecOk(r) == IF WellFormed(r.a) THEN (r.ok = 1 /\ r.f.n = Len(r.f.d) /\ Frame(r.f) = Decode(r.a)) \/ (r.ok = 0 /\ Loose(r.a)) ELSE r.ok = 0
\* counts c of the transport after what should be h
Counts(h, c) == /\ c[2] = h.tx /\ c[4] = h.txe
                /\ c[1] \in h.rx..(h.rx + h.slack) /\ c[3] \in h.rxe..(h.rxe + h.slack)
Judge(r) ==
  CASE r.k = "E" -> [g |-> g, bad |-> W(EncOk(r), "encode"), want |-> IF Valid(r.f.id, r.f.x = 1, r.f.n) THEN Encode(Frame(r.f)) ELSE <<>>]
    [] r.k = "D" -> [g |-> g, bad |-> W(DecOk(r), "decode"), want |-> IF WellFormed(r.a) THEN Decode(r.a) ELSE 0]
    [] r.k = "R" -> LET o == Receive(g, r.a)
                        refused == Len(o.out) - Len(Strict(o.out))
                        strict == Match(Strict(o.out), r.rx) /\ refused > 0
                        h == IF strict THEN [o.g EXCEPT !.rxe = @ + refused] ELSE o.g
                    IN [g |-> h, bad |-> W(Match(o.out, r.rx) \/ strict, "received") \cup W(Counts(h, r.c), "counters"),
                        want |-> [frames |-> [i \in DOMAIN o.out |-> Decode(o.out[i])], rx |-> h.rx, rxe |-> h.rxe, slack |-> h.slack]]
    [] r.k = "X" -> LET v == Valid(r.f.id, r.f.x = 1, r.f.n)
                        h == Send(g, v)
                    IN [g |-> h, bad |-> W(EncOk(r), "sent") \cup W(Counts(h, r.c), "counters"), want |-> [text |-> IF v THEN Encode(Frame(r.f)) ELSE <<>>, tx |-> h.tx, txe |-> h.txe]]
    [] r.k = "N" -> [g |-> NewLine, bad |-> W(r.c = <<0, 0, 0, 0>>, "counters"), want |-> 0]
    [] r.k = "Z" -> LET z == \A i \in 1..4 : r.c[i] = 0
                    IN [g |-> IF z THEN [NewLine EXCEPT !.buf = g.buf, !.over = g.over] ELSE g, bad |-> W(z \/ Counts(g, r.c), "counters"), want |-> 0]
    [] r.k = "crash" -> [g |-> g, bad |-> {"crash"}, want |-> 0]
\* what was really counted
Adopt(h, r) == IF r.k \in {"crash", "E", "D"} THEN h ELSE [h EXCEPT !.rx = r.c[1], !.rxe = r.c[3], !.slack = 0]
Init == l = 1 /\ g = NewLine /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l] IN
           IF r.t = skip THEN UNCHANGED <<g, skip>>
           ELSE LET j == Judge(r)
                IN IF j.bad = {} THEN g' = Adopt(j.g, r) /\ UNCHANGED skip
                   ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, k |-> r.k, bad |-> SetToSeq(j.bad), want |-> j.want]))
                        /\ skip' = r.t /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
