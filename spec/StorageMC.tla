----------------------------- MODULE StorageMC -----------------------------
(* The backends as they are built, at small page sizes, refine Storage:         *)
(*   ext     a device that wraps within a page, the driver splits at page ends   *)
(*   flash   pages that can only be erased whole, bits only cleared, one cached   *)
(*           page that is written back                                          *)
(*   commit  a copy in memory that is committed after every byte                 *)
(* FAM edges: stimuli for the real backends, by the page written last.           *)
EXTENDS Storage, Json, IOUtils
CONSTANTS Page, Pages, MaxLen
Kind == IOEnv.KIND
Edges == IOEnv.EDGES = "1"
VARIABLES m, dev, cache, cur, dirty, last
\* dev: contents of the device; cache: the cached page (or the whole copy) and the page it belongs to
vars == <<m, dev, cache, cur, dirty, last>>
Size == Page * Pages
Vals == IF Kind = "flash" THEN {1, 2, ERASED} ELSE {1, ERASED}
And(x, y) == IF x = ERASED THEN y ELSE IF y = ERASED THEN x ELSE IF x = y THEN x ELSE 0
PageOf(d, p) == [i \in 0..(Page - 1) |-> d[p * Page + i]]
Dev0 == [a \in 0..(Size - 1) |-> ERASED]
\* ---- ext: one transmission writes d from a on, wrapping within the page
Transmit(d, a, s) == FoldLeft(LAMBDA x, i : [x EXCEPT ![(a \div Page) * Page + ((a + i - 1) % Page)] = s[i]], d, [i \in 1..Len(s) |-> i])
RECURSIVE Split(_, _, _)
Split(d, a, s) == IF s = <<>> THEN d
                  ELSE LET k == IF Page - (a % Page) < Len(s) THEN Page - (a % Page) ELSE Len(s)
                       IN Split(Transmit(d, a, SubSeq(s, 1, k)), a + k, SubSeq(s, k + 1, Len(s)))
\* ---- flash: f is [dev, cache, cur, dirty]
WriteBack(f) == IF ~f.dirty THEN f
                ELSE LET erased == [a \in DOMAIN f.dev |-> IF a \div Page = f.cur THEN ERASED ELSE f.dev[a]]
                     IN [f EXCEPT !.dev = [a \in DOMAIN erased |-> IF a \div Page = f.cur THEN And(erased[a], f.cache[a % Page]) ELSE erased[a]], !.dirty = FALSE]
Load(f, p) == [f EXCEPT !.cur = p, !.cache = PageOf(f.dev, p), !.dirty = FALSE]
FlashWrite(f, a, s) ==
  LET g == IF a \div Page # f.cur THEN Load(WriteBack(f), a \div Page) ELSE f
      One(x, i) == LET y == IF x.ix >= Page THEN [f |-> LET w == WriteBack([x.f EXCEPT !.dirty = TRUE]) IN Load(w, w.cur + 1), ix |-> 0] ELSE x
                   IN [f |-> [y.f EXCEPT !.cache[y.ix] = s[i]], ix |-> y.ix + 1]
      z == FoldLeft(One, [f |-> g, ix |-> a % Page], [i \in 1..Len(s) |-> i])
  IN WriteBack([z.f EXCEPT !.dirty = TRUE])
FlashReset(f) == FoldLeft(LAMBDA x, p : WriteBack([x EXCEPT !.cache = [i \in 0..(Page - 1) |-> ERASED], !.dirty = TRUE, !.cur = p]), f, [i \in 1..Pages |-> i - 1])

Norm(x) == [a \in {a \in DOMAIN x : x[a] # ERASED} |-> x[a]]
State == [dev |-> dev, cache |-> cache, cur |-> cur, dirty |-> dirty]
Be(f) == dev' = f.dev /\ cache' = f.cache /\ cur' = f.cur /\ dirty' = f.dirty
Boot(d) == [dev |-> d, cache |-> IF Kind = "commit" THEN d ELSE IF Kind = "flash" THEN PageOf(d, 0) ELSE <<>>, cur |-> 0, dirty |-> FALSE]
\* ---- stimuli for the real thing
Real == IF Kind = "flash" THEN 512 ELSE 64
Hex(n) == FoldLeft(LAMBDA a, i : a \o (CASE i % 3 = 0 -> "00" [] i % 3 = 1 -> "C3" [] OTHER -> "3C"), "", [i \in 1..n |-> i])
Note(l, p) == PrintT("EDGE " \o ToJson(<<ToString(last), l, ToString(p)>>))
EdgeStep ==
  /\ UNCHANGED <<m, dev, cache, cur, dirty>>
  /\ \/ \E p \in 0..3, o \in {0, 1, 9, 10, Real - 5, Real - 4, Real - 3, Real - 1} :
          LET a == p * Real + o
          IN /\ last' = p
             /\ Note("W " \o ToString(a) \o " 165", p) /\ Note("W " \o ToString(a) \o " 255", p)
             /\ \A n \in {1, 4, 5, 16} : a + n <= 4 * Real => Note("w " \o ToString(a) \o " " \o Hex(n), IF (a + n - 1) \div Real = p THEN p ELSE p + 1)
             /\ Note("r " \o ToString(a), last) /\ (a + 4 <= 4 * Real => Note("R " \o ToString(a) \o " 4", last))
     \/ last' = 0 /\ Note("X", 0)
     \/ last' = 3 /\ Note("Z", 3)

Init == m = Blank /\ dev = Dev0 /\ cache = Boot(Dev0).cache /\ cur = 0 /\ dirty = FALSE /\ last = 0
         /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> "0", pre |-> <<"N " \o Kind>>])) ELSE TRUE
Write(a, s) == /\ a + Len(s) <= Size /\ m' = Norm(Put(m, a, s)) /\ UNCHANGED last
               /\ CASE Kind = "ext" -> Be([State EXCEPT !.dev = Split(dev, a, s)])
                    [] Kind = "commit" -> LET c == [i \in DOMAIN cache |-> IF i >= a /\ i < a + Len(s) THEN s[i - a + 1] ELSE cache[i]] IN Be([State EXCEPT !.cache = c, !.dev = c])
                    [] Kind = "flash" -> Be(FlashWrite(State, a, s))
Restart == UNCHANGED <<m, last>> /\ Be(Boot(dev))
\* the header is one byte here
Zero == /\ \E n \in Resets(m, 1, Size) : m' = n /\ (Kind = "flash" => n = Blank) /\ (Kind # "flash" => Only(n, {0}) = Only(m, {0}))
        /\ UNCHANGED last
        /\ CASE Kind = "flash" -> Be(FlashReset(State))
             [] OTHER -> LET z == [a \in DOMAIN dev |-> IF a = 0 THEN dev[0] ELSE ERASED] IN Be([State EXCEPT !.dev = z, !.cache = IF Kind = "commit" THEN z ELSE cache])
Next == IF Edges THEN EdgeStep
        ELSE (\E a \in 0..(Size - 1), n \in 1..MaxLen : \E s \in [1..n -> Vals] : Write(a, s)) \/ Restart \/ Zero
Spec == Init /\ [][Next]_vars
View == <<dev, cache, cur, dirty, last>>
\* every address reads as what was last written there
Refines == \A a \in 0..(Size - 1) : dev[a] = At(m, a)
CacheTrue == ~dirty /\ (Kind = "flash" => cache = PageOf(dev, cur)) /\ (Kind = "commit" => cache = dev)
=============================================================================
