------------------------------ MODULE FloatGen ------------------------------
(* The hard literals of a format: for floats at the edges of their binades,    *)
(* the literal of the float itself, of the midpoint to the next float, and of  *)
(* literals a hair above and below that midpoint, with what they round to.     *)
EXTENDS Float, Json
CONSTANTS Offsets,      \* significands: 2^(bits-1) + o, 2^bits - 1 - o, and o itself when subnormal
          Exponents,    \* binary exponents
          Signs, Cut    \* Cut: literals are written with at most that many digits
VARIABLES f, lit

Sig(kind, o) ==
    CASE kind = "low"  -> Nat_(Digits(MulSmall(Hidden("f64"), 1, o)))
      [] kind = "high" -> LET t == MulSmall(Hidden("f64"), 2, 0)
                              RECURSIVE Down(_, _)
                              Down(x, n) == IF n = 0 THEN x ELSE Down(Pred(x), n - 1)
                          IN  Down(t, o + 1)
      [] OTHER         -> Nat_(ToString(o))
Kinds(q) == IF q = Formats.f64.qmin THEN {"low", "high", "sub"} ELSE {"low", "high"}

Init == /\ lit = "" /\ f \in UNION {[m : {Sig(k, o) : o \in Offsets, k \in Kinds(q)}, q : {q}, neg : Signs, r : {[up |-> FALSE, at |-> "start"]}] : q \in Exponents}
\* The float above.
Succ(m, q) == LET n == MulSmall(m, 1, 1) IN
    IF n = MulSmall(Hidden("f64"), 2, 0) THEN [m |-> Hidden("f64"), q |-> q + 1] ELSE [m |-> n, q |-> q]
S(neg) == IF neg THEN "-" ELSE ""
Say(at) ==
    LET half == MulSmall(f.m, 2, 1)
        x    == IF at = "self" THEN Exact(f.m, f.q) ELSE Exact(half, f.q - 1)
        d    == CASE at = "above" -> x.d \o "0001" [] at = "below" -> Digits(Pred(Nat_(x.d \o "0000"))) [] OTHER -> x.d
        e    == IF at \in {"above", "below"} THEN x.e - 4 ELSE x.e
        t    == IF Len(d) > Cut THEN "" ELSE d
    IN  <<t, e>>
Write == /\ lit = ""
         /\ \E at \in {"self", "mid", "above", "below"}, form \in {"pos", "sci"} :
              LET s == Say(at) IN
              /\ s[1] # ""
              /\ form = "pos" => Len(s[1]) + s[2] < 400 /\ s[2] > 0 - 400
              /\ lit' = S(f.neg) \o (IF form = "pos" THEN Positional(s[1], s[2]) ELSE Scientific(s[1], s[2]))
              /\ f' = [f EXCEPT !.r = [at |-> at, up |-> at = "above" \/ (at = "mid" /\ ~Even(f.m))]]
Next == Write
Spec == Init /\ [][Next]_<<f, lit>>

Expected ==
    LET g == IF f.r.up THEN Succ(f.m, f.q) ELSE [m |-> f.m, q |-> f.q] IN
    IF g.q > Formats.f64.qmax THEN [c |-> "inf", neg |-> f.neg, m |-> "", q |-> 0]
    ELSE [c |-> "fin", neg |-> f.neg, m |-> Digits(g.m), q |-> g.q]
\* The generator and the rounding rule agree, and the rule admits nothing else.
Agrees == lit # "" => RoundsTo(lit, Expected, "f64")
OnlyOne == (lit # "" /\ Expected.c = "fin") =>
    /\ ~RoundsTo(lit, [Expected EXCEPT !.neg = ~@], "f64")
    /\ LET n == Succ(Nat_(Expected.m), Expected.q) IN
       IF n.q > Formats.f64.qmax THEN ~RoundsTo(lit, [Expected EXCEPT !.c = "inf"], "f64")
       ELSE ~RoundsTo(lit, [Expected EXCEPT !.m = Digits(n.m), !.q = n.q], "f64")
Emit == IF lit = "" THEN TRUE
        ELSE PrintT("@C" \o ToJson([op |-> "float", lit |-> lit, f |-> Expected, overflow |-> Expected.c = "inf", kind |-> Kind(lit)]))
=============================================================================
