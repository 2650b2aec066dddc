----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Judges executions in which stimuli arrive at arbitrary points between    *)
(* single runs of the main loop (records pf, pa: something arrives; pp: the  *)
(* loop runs).  What each stimulus must cause comes from Node; Queue says    *)
(* in which order it may come out: replies in the order of the messages,     *)
(* own events in the order they were asked for, each exactly once.  Only     *)
(* when more than Cap units of work may have been waiting, older ones may    *)
(* be missing.                                                              *)
(***************************************************************************)
EXTENDS Node, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cap == 30

VARIABLES l, c, s, rep, own, calls, load, lossy, pure, newest, skip
vars == <<l, c, s, rep, own, calls, load, lossy, pure, newest, skip>>
\* newest: <<1, the reply of the newest arrival>> (if it is a message that has one, and no message had two), <<1>> if none, <<0>> if unknown
\* rep, own, calls: replies, own events and handler calls still to come
\* load: units of work that may be waiting;  pure: number of own events when nothing else is waiting, else -1

Row(e) == IF Len(e) = 1 THEN <<>> ELSE SubSeq(e, 2, Len(e))
Tab(r) == [i \in {r.ev[k][1] : k \in DOMAIN r.ev} |-> Row(CHOOSE e \in {r.ev[k] : k \in DOMAIN r.ev} : e[1] = i)]
Nvs(r) == [i \in {r.nv[k][1] : k \in DOMAIN r.nv} |-> (CHOOSE e \in {r.nv[k] : k \in DOMAIN r.nv} : e[1] = i)[2]]
Max2(a, b) == IF a > b THEN a ELSE b

IsOwn(m) == m[1] \in NumLong \cup NumShort
Msg(fr) == SubSeq(fr, 5, Len(fr))
Got(r) == [k \in DOMAIN r.tx |-> Msg(r.tx[k])]
GotRep(r) == SelectSeq(Got(r), LAMBDA m : ~IsOwn(m))
GotOwn(r) == SelectSeq(Got(r), IsOwn)

\* remove got from want: exactly its beginning, or (when lossy) skipping some
RECURSIVE Match(_, _, _)
Match(want, got, loose) ==
  IF got = <<>> THEN <<"ok", want>>
  ELSE IF want = <<>> THEN <<"bad", want>>
  ELSE IF Head(want) = Head(got) THEN Match(Tail(want), Tail(got), loose)
  ELSE IF loose THEN Match(Tail(want), got, loose) ELSE <<"bad", want>>

Fail(r, why) == /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, bad |-> <<why>>, own |-> s.nn, learn |-> FALSE, cur |-> 1, enum |-> FALSE, un |-> FALSE,
                                                 want |-> [rep |-> rep, own |-> own, calls |-> calls, lossy |-> lossy]]))
                /\ skip' = r.t /\ UNCHANGED <<c, s, rep, own, calls, load, lossy, pure, newest>>

Init == l = 1 /\ c = 0 /\ s = 0 /\ rep = <<>> /\ own = <<>> /\ calls = <<>> /\ load = 0 /\ lossy = FALSE /\ pure = 0 /\ newest = <<1>> /\ skip = ""

Arrived(o, units, p, frame) ==
  /\ s' = o.s
  /\ rep' = rep \o SelectSeq(o.tx, LAMBDA m : ~IsOwn(m))
  /\ own' = own \o SelectSeq(o.tx, IsOwn)
  /\ calls' = calls \o o.cb
  /\ load' = load + units
  /\ lossy' = (lossy \/ load + units > Cap)
  /\ pure' = p
  /\ newest' = (IF newest = <<0>> \/ Len(o.tx) > 1 THEN <<0>> ELSE IF frame /\ o.tx # <<>> THEN <<1, o.tx[1]>> ELSE <<1>>)
  /\ UNCHANGED <<c, skip>>

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET r == Trace[l] IN
     CASE r.t = skip -> UNCHANGED <<c, s, rep, own, calls, load, lossy, pure, newest, skip>>
       [] r.k = "C" -> c' = r.c /\ rep' = <<>> /\ own' = <<>> /\ calls' = <<>> /\ load' = 0 /\ lossy' = FALSE /\ pure' = 0 /\ newest' = <<1>> /\ UNCHANGED <<s, skip>>
       [] r.k = "I" -> /\ s' = Boot(c, [mode |-> r.dk[1], canid |-> r.dk[2], nn |-> r.dk[3], hb |-> r.dk[4] % 2 = 1, ea |-> r.dk[4] >= 2, rst |-> r.dk[5] = 1,
                                        nvs |-> Nvs(r) @@ [i \in 1..c.nvs |-> 0], tab |-> Tab(r) @@ FreeTable(c)])
                       /\ UNCHANGED <<c, rep, own, calls, load, lossy, pure, newest, skip>>
       [] r.k = "B" -> UNCHANGED <<c, s, rep, own, calls, load, lossy, pure, newest, skip>>
       [] r.k = "crash" -> Fail(r, "crash")
       [] r.k = "pf" -> LET o == Frame(c, Out(s), r.f, <<>>) IN IF r.tx = <<>> THEN Arrived(o, 2 + 2 * Len(o.tx), -1, TRUE) ELSE Fail(r, "early")
       [] r.k = "pa" -> LET o == Act(c, Out(s), r.a, <<>>) IN IF r.tx = <<>> THEN Arrived(o, IF pure >= 0 THEN 1 ELSE 2, IF pure >= 0 THEN pure + 1 ELSE -1, FALSE) ELSE Fail(r, "early")
       [] r.k = "pp" ->
            LET done == r.np >= 200            \* long enough for everything waiting
                \* nothing but own events was waiting: exactly the newest Cap of them come out
                wantOwn == IF done /\ pure > Cap THEN SubSeq(own, Len(own) - Cap + 1, Len(own)) ELSE own
                loose == lossy /\ ~(done /\ pure >= 0)
                a == Match(rep, GotRep(r), loose)
                b == Match(wantOwn, GotOwn(r), loose)
                x == Match(calls, r.cb, loose)
            IN IF a[1] # "ok" THEN Fail(r, "replies")
               ELSE IF b[1] # "ok" THEN Fail(r, "events")
               ELSE IF x[1] # "ok" THEN Fail(r, "calls")
               ELSE IF done /\ ~loose /\ (a[2] # <<>> \/ b[2] # <<>> \/ x[2] # <<>>) THEN Fail(r, "missing")
               ELSE IF done /\ loose /\ Len(newest) = 2 /\ rep # <<>> /\ (GotRep(r) = <<>> \/ Last(GotRep(r)) # newest[2]) THEN Fail(r, "newest lost")
               ELSE /\ rep' = (IF done THEN <<>> ELSE a[2]) /\ own' = (IF done THEN <<>> ELSE b[2]) /\ calls' = (IF done THEN <<>> ELSE x[2])
                    /\ load' = (IF done THEN 0 ELSE load)
                    /\ lossy' = (IF done THEN FALSE ELSE lossy)
                    /\ pure' = (IF done THEN 0 ELSE -1)
                    /\ newest' = (IF done THEN <<1>> ELSE newest)
                    /\ UNCHANGED <<c, s, skip>>

Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
