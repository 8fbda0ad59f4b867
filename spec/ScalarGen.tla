------------------------------ MODULE ScalarGen ------------------------------
(* Enumerates scalar texts as behaviours of a scanner that appends one       *)
(* character per step, and emits each with what it denotes in every style,   *)
(* tag and type (the replay direction of the scalar model).                  *)
EXTENDS Scalar, Json, IOUtils, FiniteSets

CONSTANTS Alphabet, MaxLen, Seeds
VARIABLES text, room       \* what was scanned; how many characters may follow

Init == text \in Seeds /\ room = MaxLen
Append1(c) == room > 0 /\ text' = text \o c /\ room' = room - 1
Next == \E c \in Alphabet : Append1(c)
Spec == Init /\ [][Next]_<<text, room>>

Emit == IF text = "" THEN TRUE ELSE PrintT("@C" \o ToJson(ScalarCase(text)))

(* --- properties of the rules themselves, checked on every text --- *)
\* Each text has exactly one meaning: the classes do not overlap.
Exclusive == Cardinality({x \in {"n","b","i"} :
                 \/ x = "n" /\ IsNullText(text)
                 \/ x = "b" /\ IsBoolText(text)
                 \/ x = "i" /\ IntLit(text).ok}) <= 1
\* A decimal integer literal is read alike by every integer type that holds it,
\* and a wider type of the same signedness never refuses what a narrower accepts.
Widening ==
    \A p \in {<<"i8","i16">>,<<"i16","i32">>,<<"i32","i64">>,<<"i64","i128">>,
              <<"u8","u16">>,<<"u16","u32">>,<<"u32","u64">>,<<"u64","u128">>} :
        ~IsErr(IntOf(text, p[1])) => IntOf(text, p[2]) = IntOf(text, p[1])
\* What is written without quotes resolves to a string (serializer side).
QuotingSound == ~NeedsQuotes(text) => ResolvePlain(text) = VStr(text)
\* An integer's canonical form denotes the same integer (writing is reversible).
CanonStable == LET l == IntLit(text) IN l.ok => IntLit(ShowInt(l.val)).val = l.val
=============================================================================
