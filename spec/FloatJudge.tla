----------------------------- MODULE FloatJudge -----------------------------
(* What the code wrote for a float (or an integer) and what it read back, and   *)
(* what it made of a literal, judged by exact arithmetic.                       *)
EXTENDS Judge, Float
I == Inputs[at]
Same(a, b) == IF a.c = "nan" THEN b.c = "nan" ELSE a = b

\* A float of format w was written: as text that denotes it, and every way of
\* reading it back gives the same bits, as a float.
Written ==
    LET texts == I.texts IN
    /\ \A i \in 1..Len(texts) :
         IF I.f.c = "fin" THEN Kind(texts[i]) = "float" /\ IsFloatLit(texts[i]) /\ RoundsTo(texts[i], I.f, I.w)
         ELSE IF I.f.c = "nan" THEN IsNan(texts[i])
         ELSE IF I.f.neg THEN IsNegInf(texts[i]) ELSE IsPosInf(texts[i])
    /\ \A v \in DOMAIN I.backs : Same(I.f, I.backs[v])
\* An f32 widened is the same number.
Widened == I.w = "f32" => \A v \in DOMAIN I.wide : Same(I.f64, I.wide[v])
Exactly(f, g) ==    \* the f64 g is the same number as the f32 f
    IF f.c # "fin" THEN Same(f, g)
    ELSE /\ g.c = "fin" /\ f.neg = g.neg
         /\ LET d == f.q - g.q IN
            IF Nat_(f.m) = <<>> THEN Nat_(g.m) = <<>> ELSE d >= 0 /\ Times2(Nat_(f.m), d) = Nat_(g.m)
\* A literal was read: as an f64 it is rounded correctly, as a Value too unless
\* it is an integer that no Value holds.
ReadAs ==
    CASE Kind(I.lit) = "float" ->
           /\ \A v \in DOMAIN I.backs : RoundsTo(I.lit, I.backs[v], "f64")
           /\ Narrows(I.backs.typed, I.f32)
      [] Kind(I.lit) = "int" ->
           /\ RoundsTo(I.lit, I.backs.typed, "f64") /\ RoundsTo(I.lit, I.backs.seq, "f64")
           /\ Narrows(I.backs.typed, I.f32)
           /\ \A v \in DOMAIN I.backs :
                IF FitsInt64(IntLit(I.lit)) THEN RoundsTo(I.lit, I.backs[v], "f64")
                ELSE v \in {"typed", "seq"} \/ I.backs[v].c = "other"
      [] OTHER -> \A v \in DOMAIN I.backs : I.backs[v].c = "other"
\* An integer was written: its canonical digits, and every reading is that integer.
IntWritten ==
    /\ \A i \in 1..Len(I.texts) : I.texts[i] = I.int
    /\ \A v \in DOMAIN I.backs :
         \/ I.backs[v] = I.int
         \* (no Value holds it: kept as a string of its digits)
         \/ v = "value" /\ I.backs[v] = "string " \o I.int /\ ~FitsInt64(IntLit(I.int))
         \/ v \in {"value-back", "value-text"} /\ I.backs[v] = "refused" /\ ~FitsInt64(IntLit(I.int))
Holds == CASE I.what = "write" -> IF ~Written THEN <<"Written">> ELSE IF ~Widened THEN <<"Widened">>
                                  ELSE IF I.w = "f32" /\ ~Exactly(I.f, I.f64) THEN <<"Exactly">> ELSE <<>>
           [] I.what = "read"  -> IF ~ReadAs THEN <<"ReadAs">> ELSE <<>>
           [] I.what = "int"   -> IF ~IntWritten THEN <<"IntWritten">> ELSE <<>>
Emit == LET h == Holds IN PrintT("@C" \o ToJson([ok |-> h = <<>>, at |-> h, id |-> at]))
=============================================================================
