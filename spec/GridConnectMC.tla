---------------------------- MODULE GridConnectMC ----------------------------
(* FAM code: every frame of a sample space is encoded and decoded, and so is    *)
(*           every text one edit away from a proper one.                        *)
(* FAM line: a character stream of up to MaxLen characters, with at most        *)
(*           MaxNoise characters that do not continue a proper message.         *)
EXTENDS GridConnect, TLC, Json, IOUtils
CONSTANTS MaxLen, MaxNoise
Edges == IOEnv.EDGES = "1"
Line == IOEnv.FAM = "line"
VARIABLES f, t, edited, g, stream, noise, out
vars == <<f, t, edited, g, stream, noise, out>>
Pow2 == {2 ^ i : i \in 0..28}
Ids(x) == IF x THEN {0, 536870911, 305419896 % 536870912, 2097151, 65535, 131071} \cup Pow2 \cup {536870911 - p : p \in Pow2}
          ELSE IF IOEnv.FAM = "std" THEN 0..2047 ELSE {0, 2047, 1418, 1023} \cup {p \in Pow2 : p <= 2047}
Datas == IF IOEnv.FAM = "std" THEN {<<>>}
         ELSE {[i \in 1..n |-> v] : n \in 0..8, v \in {0, 9, 10, 159, 160, 255}} \cup {<<1, 35, 69, 103, 137, 171, 205, 239>>}
None == [id |-> 0, x |-> FALSE, r |-> FALSE, d |-> <<>>]
Chars == {COLON, SEMI, STD, EXT, RTR, NORM, 48, 57, 65, 70, 71, 47, 64, 97, 32, 255}
HexStr(q) == FoldLeft(LAMBDA a, b : a \o b, "", [i \in DOMAIN q |-> LET H(v) == SubSeq("0123456789ABCDEF", v + 1, v + 1) IN H(q[i] \div 16) \o H(q[i] % 16)])
Stim(l) == IF Edges THEN PrintT("EDGE " \o ToJson(<<"s", l, "s">>)) ELSE TRUE
EncLine(z) == "E " \o ToString(z.id) \o (IF z.x THEN " 1" ELSE " 0") \o (IF z.r THEN " 1 " ELSE " 0 ") \o ToString(Len(z.d)) \o " " \o (IF z.d = <<>> THEN "-" ELSE HexStr(z.d))
Init == /\ g = NewLine /\ stream = <<>> /\ noise = 0 /\ out = <<>> /\ edited = FALSE
        /\ IF Line THEN f = None /\ t = <<>>
           ELSE /\ f \in [id : Ids(TRUE) \cup Ids(FALSE), x : BOOLEAN, r : BOOLEAN, d : Datas]
                /\ f.id \in Ids(f.x)
                \* all data with few identifiers, all identifiers with few data
                /\ (f.id \notin {0, 2047, 536870911} => f.d \in {<<>>, <<160>>})
                /\ t = Encode(f)
                /\ Stim(EncLine(f)) /\ Stim("D " \o HexStr(t))
        /\ IF Edges /\ (Line \/ f = None) THEN PrintT("CONFIG " \o ToJson([s |-> IF Line THEN ToString(<<g.buf, g.over>>) ELSE "s", pre |-> <<"N">>])) ELSE TRUE
\* one edit of the text
Edit == /\ ~Line /\ ~edited /\ edited' = TRUE
        /\ Len(f.d) \in {0, 1, 8} /\ f.id \in {0, 2047, 536870911}
        /\ \E i \in 1..Len(t) : \/ \E c \in Chars : t' = [t EXCEPT ![i] = c]
                                \/ \E c \in Chars : t' = SubSeq(t, 1, i) \o <<c>> \o SubSeq(t, i + 1, Len(t))
                                \/ t' = SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
                                \/ t' = SubSeq(t, 1, i - 1)
        /\ UNCHANGED <<f, g, stream, noise, out>>
        /\ (t' # <<>> => Stim("D " \o HexStr(t')))
\* characters that continue the message being received
Goes(b) == LET n == Len(b) IN
  IF n = 0 THEN {COLON}
  ELSE IF n = 1 THEN {STD, EXT}
  ELSE LET k == IdDigits(b[2] = EXT) IN
       IF n < 2 + k THEN {70}
       ELSE IF n = 2 + k THEN {NORM}
       ELSE IF (n - k) % 2 = 1 THEN {SEMI, 48} ELSE {97}
Bad == {COLON, SEMI, 71}
Arrive == /\ Line /\ (Edges \/ Len(stream) < MaxLen)
          /\ \E c \in Goes(g.buf) \cup Bad :
               /\ noise' = (IF c \in Goes(g.buf) THEN noise ELSE noise + 1) /\ (Edges \/ noise' <= MaxNoise)
               /\ LET o == Receive(g, <<c>>)
                  IN /\ g' = (IF Edges THEN [o.g EXCEPT !.rx = 0, !.rxe = 0, !.slack = 0] ELSE o.g)
                     /\ out' = (IF Edges THEN <<>> ELSE out \o o.out)
                     /\ stream' = (IF Edges THEN <<>> ELSE Append(stream, c))
                     /\ IF Edges THEN PrintT("EDGE " \o ToJson(<<ToString(<<g.buf, g.over>>), "R " \o HexStr(<<c>>), ToString(<<o.g.buf, o.g.over>>)>>)) ELSE TRUE
          /\ UNCHANGED <<f, t, edited>>
Next == Edit \/ Arrive
Spec == Init /\ [][Next]_vars
View == <<f, t, edited, g.buf, g.over, stream, out>>
Small == Edges => Len(g.buf) <= 14
\* -- code
RoundTrip == (~Line /\ ~edited) => WellFormed(t) /\ Decode(t) = f /\ Len(t) <= MAXTEXT
Refuses == (~Line /\ WellFormed(t)) => LET z == Decode(t) IN /\ Valid(z.id, z.x, Len(z.d))
                                                            /\ WellFormed(Encode(z)) /\ Decode(Encode(z)) = z /\ Len(Encode(z)) = Len(t)
\* -- line: what is delivered is exactly what stands between a ':' and a ';' with neither in between
Up == [i \in DOMAIN stream |-> Upper(stream[i])]
Framed == LET ends == {j \in DOMAIN Up : Up[j] = SEMI}
              start(j) == {i \in 1..(j - 1) : Up[i] = COLON /\ \A k \in (i + 1)..(j - 1) : Up[k] \notin {COLON, SEMI}}
              texts == {<<j, SubSeq(Up, CHOOSE i \in start(j) : TRUE, j)>> : j \in {j \in ends : start(j) # {}}}
          IN SetToSortSeq({x \in texts : WellFormed(x[2])}, LAMBDA a, b : a[1] < b[1])
Delivered == Line => out = [i \in DOMAIN Framed |-> Framed[i][2]]
Counted == Line => g.rx = Cardinality({j \in DOMAIN Up : Up[j] = SEMI /\ \E i \in 1..(j - 1) : Up[i] = COLON /\ j - i < MAXTEXT /\ \A k \in (i + 1)..(j - 1) : Up[k] \notin {COLON, SEMI}})
                    /\ g.rx - g.rxe = Len(out)
=============================================================================
