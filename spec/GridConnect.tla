---------------------------- MODULE GridConnect ----------------------------
(***************************************************************************)
(* P27: GridConnect text, as character codes.                                *)
(* P28: the serial transport that frames and decodes it.                     *)
(* A frame is [id, x (extended), r (RTR), d (data)].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
COLON == 58  SEMI == 59  STD == 83  EXT == 88  RTR == 82  NORM == 78
MAXTEXT == 28
Digit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
IsHex(ch) == ch \in 48..57 \/ ch \in 65..70
Val(ch) == IF ch < 65 THEN ch - 48 ELSE ch - 55
Hex2(b) == <<Digit(b \div 16), Digit(b % 16)>>
Hex4(w) == Hex2(w \div 256) \o Hex2(w % 256)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Valid(id, x, n) == n <= 8 /\ id >= 0 /\ id <= IF x THEN 536870911 ELSE 2047
\* the identifier field: SIDH SIDL (EIDH EIDL) registers
IdText(id, x) == IF x THEN Hex2(id \div 2097152) \o <<Digit(2 * ((id \div 262144) % 8)), Digit((id \div 65536) % 4)>> \o Hex4(id % 65536)
                 ELSE Hex4(id * 32)
Encode(f) == <<COLON, IF f.x THEN EXT ELSE STD>> \o IdText(f.id, f.x) \o <<IF f.r THEN RTR ELSE NORM>>
             \o Flat([i \in DOMAIN f.d |-> Hex2(f.d[i])]) \o <<SEMI>>

Byte(t, i) == 16 * Val(t[i]) + Val(t[i + 1])
IdDigits(x) == IF x THEN 8 ELSE 4
WellFormed(t) ==
  /\ Len(t) >= 8 /\ t[1] = COLON /\ t[2] \in {STD, EXT}
  /\ LET n == IdDigits(t[2] = EXT)
     IN /\ Len(t) >= n + 4 /\ Len(t) <= n + 20 /\ (Len(t) - n) % 2 = 0
        /\ \A i \in 3..(n + 2) : IsHex(t[i])
        /\ t[n + 3] \in {RTR, NORM}
        /\ \A i \in (n + 4)..(Len(t) - 1) : IsHex(t[i])
        /\ t[Len(t)] = SEMI
\* only for well-formed texts; bits of the identifier field that carry nothing are not looked at
Decode(t) ==
  LET x == t[2] = EXT
      n == IdDigits(x)
      b == Byte(t, 5)
      id == IF x THEN Byte(t, 3) * 2097152 + (b \div 32) * 262144 + (b % 4) * 65536 + Byte(t, 7) * 256 + Byte(t, 9)
            ELSE (Byte(t, 3) * 256 + b) \div 32
  IN [id |-> id, x |-> x, r |-> t[n + 3] = RTR, d |-> [i \in 1..((Len(t) - n - 4) \div 2) |-> Byte(t, n + 2 + 2 * i)]]
\* a text that no frame encodes to although it is well formed: unused bits are set
Loose(t) == Encode(Decode(t)) # t

\* ------------------------------------------------------------ transport
\* g: buf (the message being received, starting with ':'), over (it is longer than any message), rx, tx, rxe, txe counts,
\*    slack (what may have been counted as a failure although it was no message)
NewLine == [buf |-> <<>>, over |-> FALSE, rx |-> 0, tx |-> 0, rxe |-> 0, txe |-> 0, slack |-> 0]
Upper(ch) == IF ch \in 97..122 THEN ch - 32 ELSE ch
\* o: [g, out]; out: texts delivered
Feed(o, ch0) ==
  LET ch == Upper(ch0)   g == o.g
  IN IF ch = COLON THEN [o EXCEPT !.g.buf = <<COLON>>, !.g.over = FALSE, !.g.slack = IF g.buf # <<>> \/ g.over THEN @ + 1 ELSE @]
     ELSE IF g.over THEN IF ch = SEMI THEN [o EXCEPT !.g.over = FALSE, !.g.slack = @ + 1] ELSE o
     ELSE IF g.buf = <<>> THEN o
     ELSE IF ch = SEMI
     THEN LET t == Append(g.buf, ch)
              h == [g EXCEPT !.buf = <<>>, !.rx = @ + 1]
          IN IF WellFormed(t) THEN [g |-> h, out |-> Append(o.out, t)] ELSE [g |-> [h EXCEPT !.rxe = @ + 1], out |-> o.out]
     ELSE IF Len(g.buf) + 1 >= MAXTEXT THEN [o EXCEPT !.g.buf = <<>>, !.g.over = TRUE]
     ELSE [o EXCEPT !.g.buf = Append(@, ch)]
Receive(g, chars) == FoldLeft(Feed, [g |-> g, out |-> <<>>], chars)
Send(g, ok) == [g EXCEPT !.tx = @ + 1, !.txe = IF ok THEN @ ELSE @ + 1]
=============================================================================
