------------------------------- MODULE Scalar -------------------------------
(* The lexical rules: how the text of a scalar is classified and what it     *)
(* denotes.  TLA+ strings are used as sequences of characters (Len, SubSeq    *)
(* and \o are defined on them in TLC).  Integers are unbounded: they are kept *)
(* as decimal digit strings with a sign, because TLC's integers are 32 bits.  *)
EXTENDS Naturals, Integers, Sequences, TLC

Ch(s, i)      == SubSeq(s, i, i)
From(s, i)    == SubSeq(s, i, Len(s))
First(s)      == IF Len(s) = 0 THEN "" ELSE SubSeq(s, 1, 1)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
AllIn(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set

Dec == {"0","1","2","3","4","5","6","7","8","9"}
Oct == {"0","1","2","3","4","5","6","7"}
Bin == {"0","1"}
Hex == Dec \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

DigitVal == [c \in Hex |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
      [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
      [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15]
DigitChar == <<"0","1","2","3","4","5","6","7","8","9">>

(* -------------------------- unbounded naturals -------------------------- *)
\* Little endian sequences of decimal digits; base conversion by Horner's rule.
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, base, carry) ==          \* ds * base + carry
    IF ds = <<>>
    THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulAdd(<<>>, base, carry \div 10)
    ELSE LET v == ds[1] * base + carry
         IN  <<v % 10>> \o MulAdd(Tail(ds), base, v \div 10)

RECURSIVE Horner(_, _, _, _)
Horner(s, i, base, acc) ==
    IF i > Len(s) THEN acc ELSE Horner(s, i + 1, base, MulAdd(acc, base, DigitVal[Ch(s, i)]))

RECURSIVE Show(_, _)
Show(ds, i) == IF i = 0 THEN "" ELSE DigitChar[ds[i] + 1] \o Show(ds, i - 1)

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ First(s) = "0" THEN StripZeros(From(s, 2)) ELSE s

\* Canonical decimal digit string of the digits s in the given base.
Canon(s, base) ==
    IF base = 10 THEN StripZeros(s)
    ELSE LET ds == Horner(s, 1, base, <<>>)
             sh == Show(ds, Len(ds))
         IN  IF sh = "" THEN "0" ELSE StripZeros(sh)

RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==
    IF i > Len(a) THEN TRUE
    ELSE IF DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)] THEN TRUE
    ELSE IF DigitVal[Ch(a, i)] > DigitVal[Ch(b, i)] THEN FALSE
    ELSE LexLeq(a, b, i + 1)
MagLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b, 1)

\* An integer is [neg |-> BOOLEAN, mag |-> canonical digits]; zero is not negative.
MkInt(neg, mag)  == [neg |-> neg /\ mag # "0", mag |-> mag]
ShowInt(n)       == (IF n.neg THEN "-" ELSE "") \o n.mag

\* Ranges: the magnitude of the least value (0 for unsigned) and of the greatest.
Bounds == [
    i8   |-> [lo |-> "128",                  hi |-> "127"],
    i16  |-> [lo |-> "32768",                hi |-> "32767"],
    i32  |-> [lo |-> "2147483648",           hi |-> "2147483647"],
    i64  |-> [lo |-> "9223372036854775808",  hi |-> "9223372036854775807"],
    i128 |-> [lo |-> "170141183460469231731687303715884105728",
              hi |-> "170141183460469231731687303715884105727"],
    u8   |-> [lo |-> "0", hi |-> "255"],
    u16  |-> [lo |-> "0", hi |-> "65535"],
    u32  |-> [lo |-> "0", hi |-> "4294967295"],
    u64  |-> [lo |-> "0", hi |-> "18446744073709551615"],
    u128 |-> [lo |-> "0", hi |-> "340282366920938463463374607431768211455"]]
Signed   == {"i8", "i16", "i32", "i64", "i128"}
Unsigned == {"u8", "u16", "u32", "u64", "u128"}
Ints     == Signed \cup Unsigned
InRange(n, ty) == MagLeq(n.mag, IF n.neg THEN Bounds[ty].lo ELSE Bounds[ty].hi)

(* ------------------------------ literals ------------------------------- *)
IsNullText(s) == s \in {"null", "Null", "NULL", "~"}
IsTrue(s)     == s \in {"true", "True", "TRUE"}
IsFalse(s)    == s \in {"false", "False", "FALSE"}
IsBoolText(s) == IsTrue(s) \/ IsFalse(s)

Unsign(s) == IF First(s) \in {"+", "-"} THEN From(s, 2) ELSE s

\* Leading zero(s) followed by digits: a string according to YAML 1.2.
ZeroDigits(s) == LET u == Unsign(s) IN Len(u) > 1 /\ First(u) = "0" /\ AllIn(u, Dec)

NoInt == [ok |-> FALSE, sign |-> "", radix |-> 0, val |-> [neg |-> FALSE, mag |-> "0"]]
\* The integer literal s, of any magnitude.
IntLit(s) ==
    LET sign == IF First(s) \in {"+", "-"} THEN First(s) ELSE ""
        u    == Unsign(s)
        p    == IF Len(u) >= 2 THEN SubSeq(u, 1, 2) ELSE ""
        body == From(u, 3)
        lit(digits, base) == [ok |-> TRUE, sign |-> sign, radix |-> base,
                              val |-> MkInt(sign = "-", Canon(digits, base))]
    IN  IF u = "" THEN NoInt
        ELSE IF p = "0x" /\ body # "" /\ AllIn(body, Hex) THEN lit(body, 16)
        ELSE IF p = "0o" /\ body # "" /\ AllIn(body, Oct) THEN lit(body, 8)
        ELSE IF p = "0b" /\ body # "" /\ AllIn(body, Bin) THEN lit(body, 2)
        ELSE IF AllIn(u, Dec) /\ ~ZeroDigits(s) THEN lit(u, 10)
        ELSE NoInt

\* Position of the first character of s (from i on) that is in set; Len+1 if none.
RECURSIVE FindIn(_, _, _)
FindIn(s, i, set) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in set THEN i ELSE FindIn(s, i + 1, set)

IsExp(s)  == LET u == Unsign(s) IN u # "" /\ AllIn(u, Dec)
\* digits [ . digits ] with at least one digit
IsMant(s) == LET d == FindIn(s, 1, {"."})
             IN  AllIn(SubSeq(s, 1, d - 1), Dec) /\ AllIn(From(s, d + 1), Dec)
                 /\ s # "" /\ s # "."
\* A decimal float literal, sign included.
IsFloatLit(s) ==
    LET u == Unsign(s)
        e == FindIn(u, 1, {"e", "E"})
    IN  /\ AllIn(s, Dec \cup {"+", "-", ".", "e", "E"})
        /\ IsMant(SubSeq(u, 1, e - 1))
        /\ e <= Len(u) => IsExp(From(u, e + 1))

(* Whether the literal rounds to infinity: it is at least half a unit beyond  *)
(* the greatest float (2^1024 - 2^970, written out).                          *)
Overflow309 == "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880177904174497792"
\* The digits x (possibly fewer) are lexically not below the digits of y.
RECURSIVE LexGeq(_, _, _)
LexGeq(x, y, i) ==
    IF i > Len(y) THEN TRUE
    ELSE LET c == IF i > Len(x) THEN 0 ELSE DigitVal[Ch(x, i)] IN
         IF c # DigitVal[Ch(y, i)] THEN c > DigitVal[Ch(y, i)] ELSE LexGeq(x, y, i + 1)
RECURSIVE ToNat(_, _, _)
ToNat(s, i, acc) == IF i > Len(s) THEN acc
                    ELSE ToNat(s, i + 1, IF acc > 99999 THEN acc ELSE acc * 10 + DigitVal[Ch(s, i)])
Overflows(s) ==
    LET u    == Unsign(s)
        e    == FindIn(u, 1, {"e", "E"})
        mant == SubSeq(u, 1, e - 1)
        ex   == IF e <= Len(u) THEN From(u, e + 1) ELSE "0"
        exn  == ToNat(Unsign(ex), 1, 0) * (IF First(ex) = "-" THEN 0 - 1 ELSE 1)
        dot  == FindIn(mant, 1, {"."})
        nz   == FindIn(mant, 1, Dec \ {"0"})          \* first non-zero digit
        mag  == (IF nz < dot THEN dot - nz ELSE dot - nz + 1) + exn
    IN  IF nz > Len(mant) THEN FALSE
        ELSE IF mag # 309 THEN mag > 309
        ELSE LexGeq(IF nz < dot THEN SubSeq(mant, nz, dot - 1) \o From(mant, dot + 1) ELSE From(mant, nz), Overflow309, 1)

IsPosInf(s) == s \in {".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF"}
IsNegInf(s) == s \in {"-.inf", "-.Inf", "-.INF"}
IsNan(s)    == s \in {".nan", ".NaN", ".NAN"}
IsFinite(s) == IsFloatLit(s) /\ ~Overflows(s)
IsF64(s)    == IsPosInf(s) \/ IsNegInf(s) \/ IsNan(s) \/ IsFinite(s)
\* The float that the literal denotes, named by a literal Rust's parser knows.
F64Of(s) == IF IsPosInf(s) THEN "inf" ELSE IF IsNegInf(s) THEN "-inf" ELSE IF IsNan(s) THEN "nan" ELSE s

(* ----------------------- values of untagged scalars --------------------- *)
VNull     == [k |-> "null"]
VBool(b)  == [k |-> "bool", b |-> b]
VInt(n)   == [k |-> "int", s |-> ShowInt(n)]
VFloat(t) == [k |-> "float", t |-> t]
VStr(s)   == [k |-> "str", s |-> s]
Err(c)    == [k |-> "err", c |-> c]
IsErr(x)  == x.k = "err"

FitsInt128(l) == l.ok /\ InRange(l.val, IF l.sign = "-" THEN "i128" ELSE "u128")
FitsInt64(l)  == l.ok /\ (IF l.val.neg THEN InRange(l.val, "i64") ELSE InRange(l.val, "u64"))

\* What kind of thing an untagged plain scalar resolves to.
Kind(s) ==
    IF s = "" \/ IsNullText(s) THEN "null"
    ELSE IF IsBoolText(s) THEN "bool"
    ELSE IF FitsInt128(IntLit(s)) THEN "int"
    ELSE IF ~ZeroDigits(s) /\ IsF64(s) THEN "float"
    ELSE "str"

ResolvePlain(s) ==
    LET l == IntLit(s) IN
    CASE Kind(s) = "null"  -> VNull
      [] Kind(s) = "bool"  -> VBool(IsTrue(s))
      [] Kind(s) = "int"   -> IF FitsInt64(l) THEN VInt(l.val) ELSE Err("range")
      [] Kind(s) = "float" -> VFloat(F64Of(s))
      [] OTHER             -> VStr(s)

(* Styles: "p" plain, "s" single quoted, "d" double quoted, "l" literal, "f" folded. *)
(* Tags: "" none, "!!bool" etc. core, "!x" local.                                     *)
IsLocal(tag) == tag # "" /\ First(tag) = "!" /\ ~StartsWith(tag, "!!")
CoreTags == {"!!null", "!!bool", "!!int", "!!float", "!!str"}

\* A scalar read as a Value, local tag aside.
ResolveScalar(tag, style, s) ==
    CASE tag = "!!bool"  -> IF IsBoolText(s) THEN VBool(IsTrue(s)) ELSE Err("value")
      [] tag = "!!int"   -> IF FitsInt128(IntLit(s))
                            THEN IF FitsInt64(IntLit(s)) THEN VInt(IntLit(s).val) ELSE Err("range")
                            ELSE Err("value")
      [] tag = "!!float" -> IF IsF64(s) THEN VFloat(F64Of(s)) ELSE Err("value")
      [] tag = "!!null"  -> IF IsNullText(s) THEN VNull ELSE Err("value")
      [] tag # "" /\ ~IsLocal(tag) -> VStr(s)     \* !!str and every other global tag
      [] OTHER           -> IF style = "p" THEN ResolvePlain(s) ELSE VStr(s)

TagName(tag) == IF IsLocal(tag) /\ Len(tag) > 1 THEN From(tag, 2) ELSE tag
VTag(t, v)   == [k |-> "tag", t |-> t, v |-> v]
WrapTag(tag, v) == IF IsErr(v) THEN v ELSE IF IsLocal(tag) THEN VTag(TagName(tag), v) ELSE v

\* The Value an (untyped) scalar node denotes.
ScalarValue(tag, style, s) == WrapTag(tag, ResolveScalar(tag, style, s))

(* ----------------------- typed reading of a scalar ---------------------- *)
RBool(b)  == VBool(b)
IntOf(s, ty) ==                     \* a plain scalar read as integer type ty
    LET l  == IntLit(s)
        ok == l.ok /\ (ty \in Unsigned => l.sign # "-")
    IN  IF ok /\ InRange(l.val, ty) THEN VInt(l.val) ELSE Err("type")
FloatOf(s)   == IF IsF64(s) THEN VFloat(F64Of(s)) ELSE Err("type")
BoolOf(s)    == IF IsBoolText(s) THEN VBool(IsTrue(s)) ELSE Err("type")

\* How the serializer must write the string s when it has no line break.
NeedsQuotes(s) == Kind(s) # "str" \/ ZeroDigits(s)

(* Everything the scalar text s denotes: the unit of conformance checking.   *)
ScalarCase(s) ==
    [op |-> "scalar", s |-> s,
     p |-> ResolvePlain(s), kind |-> Kind(s),
     tb |-> ResolveScalar("!!bool", "p", s), ti |-> ResolveScalar("!!int", "p", s),
     tf |-> ResolveScalar("!!float", "p", s), tn |-> ResolveScalar("!!null", "p", s),
     ints |-> [ty \in Ints |-> IntOf(s, ty)],
     f64 |-> FloatOf(s), bool |-> BoolOf(s)]

(* --------------------------- floats by value ---------------------------- *)
\* Sign, decimal digits and the place of the point: 0.d1d2.. times 10^ex.
\* Distinct decimal numbers that round to one float are outside of the model.
RECURSIVE StripTrail(_)
StripTrail(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
NormF(t) ==
    IF t \in {"inf", "-inf", "nan"} THEN [neg |-> t = "-inf", d |-> t, ex |-> 0]
    ELSE LET u    == Unsign(t)
             e    == FindIn(u, 1, {"e", "E"})
             mant == SubSeq(u, 1, e - 1)
             ex   == IF e <= Len(u) THEN From(u, e + 1) ELSE "0"
             exn  == ToNat(Unsign(ex), 1, 0) * (IF First(ex) = "-" THEN 0 - 1 ELSE 1)
             dot  == FindIn(mant, 1, {"."})
             nz   == FindIn(mant, 1, Dec \ {"0"})
             all  == SubSeq(mant, 1, dot - 1) \o From(mant, dot + 1)
             lead == FindIn(all, 1, Dec \ {"0"})
         IN  IF nz > Len(mant) THEN [neg |-> FALSE, d |-> "", ex |-> 0]
             ELSE [neg |-> First(t) = "-", d |-> StripTrail(From(all, lead)), ex |-> dot - lead + exn]
FEq(a, b) == a = b \/ NormF(a) = NormF(b)
=============================================================================
