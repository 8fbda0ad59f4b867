----------------------------- MODULE ConvertGen ------------------------------
(* Every chain of conversions up to a length, from every start.                 *)
EXTENDS Convert, Json
CONSTANTS Starts, MaxSteps
VARIABLES start, now, path
Init == start \in Starts /\ now = start /\ path = <<>>
Next == /\ Len(path) < MaxSteps
        /\ \E s \in Steps(now) :
             /\ now' = s[3]
             /\ path' = Append(path, [c |-> s[1], ty |-> s[2], f |-> s[3].f, v |-> s[3].v,
                                      about |-> IF Tells(s[3]) THEN About(s[3]) ELSE [is_i64 |-> FALSE]])
        /\ UNCHANGED start
Spec == Init /\ [][Next]_<<start, now, path>>

Datum(v) == CASE v.k = "seq" -> v.e[1] [] v.k = "map" -> v.e[1][2] [] OTHER -> v
\* Whatever the way, it is the same number, and an integer becomes a float only by asking for one.
Preserved == now.f # "gone" => \/ Datum(now.v) = start.v
                               \/ start.v.k = "int" /\ Datum(now.v) = VFloat(start.v.s)
OnlyByAsking == now.f # "gone" /\ Datum(now.v) # start.v => \E i \in 1..Len(path) : path[i].f \in Floats
\* What was put into a type comes out of Number and Value as that type.
Inverse == now.f = "value" /\ Flat(now.v) /\ start.f \in Narrow \cup Floats /\ now.v = start.v => Read(now.v, start.f) = start
Emit == (Len(path) = MaxSteps \/ Steps(now) = {}) => PrintT("@C" \o ToJson([op |-> "convert", start |-> start, path |-> path]))
=============================================================================
