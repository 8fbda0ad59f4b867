-------------------------------- MODULE Float --------------------------------
(* Binary floating point by exact arithmetic.  A finite float is m * 2^q; a   *)
(* decimal literal is D * 10^e.  Whether one is the other correctly rounded   *)
(* (to nearest, ties to even) is decided with natural numbers of any size,    *)
(* kept as little endian sequences of base 10000 limbs without leading zeros.  *)
EXTENDS Scalar
LOCAL INSTANCE SequencesExt

Base == 10000
RECURSIVE Limbs(_)
Limbs(s) ==                             \* of a string of decimal digits
    IF s = "" THEN <<>>
    ELSE LET n == Len(s)
             k == IF n > 4 THEN n - 3 ELSE 1
         IN  <<ToNat(SubSeq(s, k, n), 1, 0)>> \o Limbs(SubSeq(s, 1, k - 1))
RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Nat_(s) == Trim(Limbs(s))

RECURSIVE Spill(_, _)
Spill(x, c) == IF c = 0 THEN x ELSE Spill(Append(x, c % Base), c \div Base)
\* x * k + c for 0 <= k <= 2^17, 0 <= c <= Base
MulSmall(x, k, c) ==
    LET r == FoldLeft(LAMBDA a, d : LET v == (d * k) + a[2] IN <<Append(a[1], v % Base), v \div Base>>, <<<<>>, c>>, x)
    IN  Trim(Spill(r[1], r[2]))
RECURSIVE Times2(_, _)
Times2(x, n) == IF n = 0 THEN x ELSE IF n >= 17 THEN Times2(MulSmall(x, 131072, 0), n - 17) ELSE Times2(MulSmall(x, 2, 0), n - 1)
RECURSIVE Times5(_, _)
Times5(x, n) == IF n = 0 THEN x ELSE IF n >= 7 THEN Times5(MulSmall(x, 78125, 0), n - 7) ELSE Times5(MulSmall(x, 5, 0), n - 1)
Times10(x, n) ==
    IF x = <<>> THEN x
    ELSE LET y == [i \in 1..(n \div 4) |-> 0] \o x
         IN  CASE n % 4 = 0 -> y [] n % 4 = 1 -> MulSmall(y, 10, 0)
               [] n % 4 = 2 -> MulSmall(y, 100, 0) [] OTHER -> MulSmall(y, 1000, 0)
RECURSIVE Cmp(_, _, _)
Cmp(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN 0 - 1 ELSE IF x[i] > y[i] THEN 1 ELSE Cmp(x, y, i - 1)
\* -1, 0 or 1 for less, equal, greater
Order(x, y) == IF Len(x) < Len(y) THEN 0 - 1 ELSE IF Len(x) > Len(y) THEN 1 ELSE Cmp(x, y, Len(x))
Pred(x) ==                              \* x - 1 for x > 0
    LET z == CHOOSE i \in 1..Len(x) : x[i] # 0 /\ \A j \in 1..(i - 1) : x[j] = 0
    IN  Trim([i \in 1..Len(x) |-> IF i < z THEN Base - 1 ELSE IF i = z THEN x[i] - 1 ELSE x[i]])
RECURSIVE Pad4(_)
Pad4(s) == IF Len(s) < 4 THEN Pad4("0" \o s) ELSE s
\* Decimal digits
Digits(x) == IF x = <<>> THEN "0"
             ELSE StripZeros(FoldLeft(LAMBDA s, d : Pad4(ToString(d)) \o s, "", x))

Pos(n) == IF n > 0 THEN n ELSE 0
Neg(n) == Pos(0 - n)
\* The order of x * 10^e and y * 2^q.  The rest of the work is skipped when the
\* number of digits decides.
OrderDB(x, e, y, q) ==
    IF x = <<>> \/ y = <<>> THEN Order(x, y)
    ELSE Order(Times2(Times10(x, Pos(e)), Neg(q)), Times2(Times10(y, Neg(e)), Pos(q)))

(* ------------------------------- formats ------------------------------- *)
Formats == [f64 |-> [bits |-> 53, qmin |-> 0 - 1074, qmax |-> 971],
            f32 |-> [bits |-> 24, qmin |-> 0 - 149, qmax |-> 104]]
Hidden(w) == Times2(<<1>>, Formats[w].bits - 1)          \* the least normal significand
\* Finite floats in canonical form: subnormals and zero have the least exponent.
IsFinite2(f, w) ==
    LET m == f.m IN
    /\ f.q >= Formats[w].qmin /\ f.q <= Formats[w].qmax
    /\ Order(m, MulSmall(Hidden(w), 2, 0)) < 0
    /\ Order(m, Hidden(w)) < 0 => f.q = Formats[w].qmin
Even(m) == m = <<>> \/ m[1] % 2 = 0

(* The literal x * 10^e, rounded to the format, is the finite float m * 2^q:   *)
(* it lies between the midpoints to the neighbours, or on one and m is even.   *)
Rounds(x, e, m, q, w) ==
    LET tie == IF Even(m) THEN 0 ELSE 0 - 1
        up  == MulSmall(m, 2, 1)                         \* 2m+1, in halves
        low == IF m = Hidden(w) /\ q > Formats[w].qmin
               THEN [m |-> Pred(MulSmall(m, 4, 0)), q |-> q - 2]  \* the gap below a power of two is half as wide
               ELSE [m |-> Pred(MulSmall(m, 2, 0)), q |-> q - 1]
    IN  /\ OrderDB(x, e, up, q - 1) <= tie
        /\ m # <<>> => OrderDB(x, e, low.m, low.q) >= 0 - tie
\* The literal is beyond the greatest finite float by half a unit or more.
Infinite(x, e, w) ==
    OrderDB(x, e, Pred(Times2(<<1>>, Formats[w].bits + 1)), Formats[w].qmax - 1) >= 0

(* -------------------------- literals and floats -------------------------- *)
\* The decimal literal t as D * 10^e (the sign aside).
LitOf(t) ==
    LET u    == Unsign(t)
        i    == FindIn(u, 1, {"e", "E"})
        mant == SubSeq(u, 1, i - 1)
        ex   == IF i <= Len(u) THEN From(u, i + 1) ELSE "0"
        exn  == ToNat(Unsign(ex), 1, 0) * (IF First(ex) = "-" THEN 0 - 1 ELSE 1)
        dot  == FindIn(mant, 1, {"."})
        frac == From(mant, dot + 1)
    IN  [x |-> Nat_(SubSeq(mant, 1, dot - 1) \o frac), e |-> exn - Len(frac), neg |-> First(t) = "-"]
\* Far outside of what either format holds (spares the arithmetic).
Order10(l) == (4 * Len(l.x)) + l.e          \* at least the decimal exponent, at most 3 more
Huge(l) == l.x # <<>> /\ Order10(l) > 320
Tiny(l) == l.x # <<>> /\ Order10(l) < 0 - 340

\* A float as recorded: [c |-> "fin", neg, m (digits), q] or [c |-> "inf" | "nan", neg].
RoundsTo(t, f, w) ==
    LET l == LitOf(t) IN
    /\ f.neg = l.neg
    /\ IF Huge(l) THEN f.c = "inf"
       ELSE IF Tiny(l) THEN f.c = "fin" /\ f.m = "0"
       ELSE IF f.c = "inf" THEN Infinite(l.x, l.e, w)
       ELSE /\ f.c = "fin"
            /\ IsFinite2([m |-> Nat_(f.m), q |-> f.q], w)
            /\ Rounds(l.x, l.e, Nat_(f.m), f.q, w)
\* The f64 f, rounded to the narrower format, is g.
Narrows(f, g) ==
    /\ f.neg = g.neg
    /\ IF f.c # "fin" THEN g.c = f.c
       ELSE LET m == Nat_(f.m)
                \* m * 2^q as an exact decimal
                x == IF f.q >= 0 THEN Times2(m, f.q) ELSE Times5(m, 0 - f.q)
                e == IF f.q >= 0 THEN 0 ELSE f.q
            IN  IF m = <<>> THEN g.c = "fin" /\ g.m = "0"
                ELSE IF f.q < 0 - 400 THEN g.c = "fin" /\ g.m = "0"
                ELSE IF f.q > 200 THEN g.c = "inf"
                ELSE IF g.c = "inf" THEN Infinite(x, e, "f32")
                ELSE g.c = "fin" /\ IsFinite2([m |-> Nat_(g.m), q |-> g.q], "f32") /\ Rounds(x, e, Nat_(g.m), g.q, "f32")

(* --------------------------- exact literals ------------------------------ *)
\* m * 2^q written out in decimal: the digits and the power of ten.
Exact(m, q) == IF q >= 0 THEN [d |-> Digits(Times2(m, q)), e |-> 0] ELSE [d |-> Digits(Times5(m, 0 - q)), e |-> q]
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE IF n % 2 = 1 THEN "0" \o Zeros(n - 1) ELSE LET h == Zeros(n \div 2) IN h \o h
\* d * 10^e as text: positional, or with an exponent after the first digit.
Positional(d, e) ==
    IF e >= 0 THEN d \o Zeros(e) \o ".0"
    ELSE IF Len(d) > 0 - e THEN SubSeq(d, 1, Len(d) + e) \o "." \o From(d, Len(d) + e + 1)
    ELSE "0." \o Zeros(0 - e - Len(d)) \o d
Scientific(d, e) ==
    LET x == e + Len(d) - 1 IN
    First(d) \o (IF Len(d) > 1 THEN "." \o From(d, 2) ELSE "") \o "e" \o (IF x < 0 THEN "-" \o ToString(0 - x) ELSE ToString(x))
=============================================================================
