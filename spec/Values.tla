------------------------------- MODULE Values -------------------------------
(* Values as data: order, hashing classes, indexing and mappings.               *)
EXTENDS Read

(* -------------------------------- order --------------------------------- *)
\* The characters used by explored strings, in order.
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharPos == [i \in 1..Len(Chars) |-> i]
PosOf == [c \in {Ch(Chars, i) : i \in 1..Len(Chars)} |-> CHOOSE i \in 1..Len(Chars) : Ch(Chars, i) = c]

LT == "lt"  EQ == "eq"  GT == "gt"  NO == "none"
CmpN(a, b) == IF a < b THEN LT ELSE IF a > b THEN GT ELSE EQ
Turn(c) == IF c = LT THEN GT ELSE IF c = GT THEN LT ELSE c
RECURSIVE CmpS(_, _, _)
CmpS(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN EQ ELSE LT)
    ELSE IF i > Len(b) THEN GT
    ELSE IF Ch(a, i) = Ch(b, i) THEN CmpS(a, b, i + 1)
    ELSE CmpN(PosOf[Ch(a, i)], PosOf[Ch(b, i)])
\* Magnitudes without leading zeros.
CmpMag(a, b) == IF Len(a) # Len(b) THEN CmpN(Len(a), Len(b)) ELSE CmpS(a, b, 1)
CmpInt(a, b) ==
    LET na == First(a) = "-"  nb == First(b) = "-"
    IN  IF na # nb THEN (IF na THEN LT ELSE GT)
        ELSE IF na THEN Turn(CmpMag(From(a, 2), From(b, 2))) ELSE CmpMag(a, b)
\* Floats other than NaN.
CmpF(a, b) ==
    LET x == NormF(a)  y == NormF(b)
        sgn(z) == IF z.d = "" THEN 0 ELSE IF z.neg THEN 0 - 1 ELSE 1
        inf(z) == z.d \in {"inf", "-inf"}
        mag == IF inf(x) \/ inf(y) THEN CmpN(IF inf(x) THEN 1 ELSE 0, IF inf(y) THEN 1 ELSE 0)
               ELSE IF x.ex # y.ex THEN CmpN(x.ex, y.ex) ELSE CmpS(x.d, y.d, 1)
    IN  IF sgn(x) # sgn(y) THEN CmpN(sgn(x), sgn(y))
        ELSE IF sgn(x) = 0 THEN EQ ELSE IF sgn(x) < 0 THEN Turn(mag) ELSE mag
CmpNum(a, b) ==
    IF a.k = "int" /\ b.k = "int" THEN CmpInt(a.s, b.s)
    ELSE IF a.k = "int" THEN LT ELSE IF b.k = "int" THEN GT      \* integers below floats
    ELSE IF a.t = "nan" \/ b.t = "nan" THEN (IF a.t = b.t THEN EQ ELSE NO)
    ELSE CmpF(a.t, b.t)
\* The total order by which entries of mappings are put in line: as the order of
\* values, and NaN after all other floats.
TotNum(a, b) == LET c == CmpNum(a, b) IN IF c # NO THEN c ELSE IF a.t = "nan" THEN GT ELSE LT

Rank(v) == CASE v.k = "null" -> 1 [] v.k = "bool" -> 2 [] v.k \in {"int", "float"} -> 3 [] v.k = "str" -> 4
             [] v.k = "seq" -> 5 [] v.k = "map" -> 6 [] v.k = "tag" -> 7
Bit(b) == IF b THEN 1 ELSE 0
RECURSIVE Cmp(_, _, _)
RECURSIVE CmpSeq(_, _, _, _)
RECURSIVE Sorted(_)
CmpSeq(x, y, i, total) ==
    IF i > Len(x) THEN (IF i > Len(y) THEN EQ ELSE LT)
    ELSE IF i > Len(y) THEN GT
    ELSE LET c == Cmp(x[i], y[i], total) IN IF c = EQ THEN CmpSeq(x, y, i + 1, total) ELSE c
\* Entries by key.
InsertEntry(e, s) ==
    LET k == CHOOSE k \in 0..Len(s) : /\ \A i \in 1..k : Cmp(s[i][1], e[1], TRUE) = LT
                                      /\ \A i \in k + 1..Len(s) : Cmp(s[i][1], e[1], TRUE) # LT
    IN  SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE InsertEntry(s[1], Sorted(Tail(s)))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE <<s[1][1], s[1][2]>> \o Flat(Tail(s))
\* A mapping compares as its entries, sorted by key.
Cmp(a, b, total) ==
    IF Rank(a) # Rank(b) THEN CmpN(Rank(a), Rank(b))
    ELSE CASE a.k = "null" -> EQ
           [] a.k = "bool" -> CmpN(Bit(a.b), Bit(b.b))
           [] a.k \in {"int", "float"} -> IF total THEN TotNum(a, b) ELSE CmpNum(a, b)
           [] a.k = "str" -> CmpS(a.s, b.s, 1)
           [] a.k = "seq" -> CmpSeq(a.e, b.e, 1, total)
           [] a.k = "map" -> CmpSeq(Flat(Sorted(a.e)), Flat(Sorted(b.e)), 1, total)
           [] a.k = "tag" -> LET c == CmpS(a.t, b.t, 1) IN IF c = EQ THEN Cmp(a.v, b.v, total) ELSE c

(* -------------------------------- mappings ------------------------------- *)
\* A mapping is a sequence of entries <<key, value>> with distinct keys.
Find(e, k) == LET S == {j \in 1..Len(e) : VEq(e[j][1], k)} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
MPut(e, k, v) == LET j == Find(e, k) IN IF j = 0 THEN Append(e, <<k, v>>) ELSE [e EXCEPT ![j] = <<e[j][1], v>>]
RECURSIVE MPuts(_, _, _)
MPuts(e, kvs, i) == IF i > Len(kvs) THEN e ELSE MPuts(MPut(e, kvs[i][1], kvs[i][2]), kvs, i + 1)
\* The last entry moves into the gap, or the later ones move up.
SwapOut(e, j)  == IF j = Len(e) THEN SubSeq(e, 1, j - 1) ELSE SubSeq([e EXCEPT ![j] = e[Len(e)]], 1, Len(e) - 1)
ShiftOut(e, j) == SubSeq(e, 1, j - 1) \o SubSeq(e, j + 1, Len(e))
Distinct(e) == \A i, j \in 1..Len(e) : i < j => ~VEq(e[i][1], e[j][1])
=============================================================================
