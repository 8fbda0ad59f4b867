------------------------------- MODULE Utf8Gen -------------------------------
(* All byte strings over representatives of the classes of bytes.              *)
EXTENDS Utf8, TLC, Json
CONSTANTS Bytes, MaxLen
VARIABLES bs
Init == bs = <<>>
\* (nothing is learnt by going on after a string that can no longer be valid, except one byte)
Tails == {<<>>} \cup {<<x>> : x \in {128, 144, 160}} \cup {<<x, 128>> : x \in {128, 144, 160}} \cup {<<x, 128, 128>> : x \in {128, 144}}
Hopeless(b) == \A t \in Tails : ~Decode(b \o t, 1).ok
Next == /\ Len(bs) < MaxLen
        /\ ~Hopeless(bs)
        /\ \E b \in Bytes : bs' = Append(bs, b)
Spec == Init /\ [][Next]_bs
\* Decoding is injective: encoding the code points gives the bytes back.
Encode(cp) == CASE cp < 128 -> <<cp>>
                [] cp >= 128 /\ cp < 2048 -> <<192 + cp \div 64, 128 + (cp % 64)>>
                [] cp >= 2048 /\ cp < 65536 -> <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
                [] OTHER -> <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
RECURSIVE EncodeAll(_, _)
EncodeAll(c, i) == IF i > Len(c) THEN <<>> ELSE Encode(c[i]) \o EncodeAll(c, i + 1)
Faithful == LET d == Decode(bs, 1) IN
    d.ok => EncodeAll(d.cps, 1) = bs /\ \A i \in 1..Len(d.cps) : d.cps[i] <= 1114111 /\ ~(d.cps[i] >= 55296 /\ d.cps[i] <= 57343)
Emit == LET d == Decode(bs, 1) IN
    PrintT("@C" \o ToJson([op |-> "utf8", b |-> bs, ok |-> d.ok,
                           allowed |-> d.ok /\ \A i \in 1..Len(d.cps) : Allowed(d.cps[i]),
                           plain |-> d.ok /\ \A i \in 1..Len(d.cps) : Allowed(d.cps[i]) /\ ~IsBreak(d.cps[i])]))
=============================================================================
