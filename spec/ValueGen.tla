------------------------------ MODULE ValueGen -------------------------------
(* Equality and order of Values: all pairs from a pool; the laws on the model.   *)
EXTENDS Values, Json, IOUtils
CONSTANTS Prims, Triples                    \* Triples: check the laws of three
VARIABLES i, j, l
P == ndJsonDeserialize(IOEnv.INPUTS)
N == Len(P)

Init == i \in 1..N /\ j = 0 /\ l = 0
Next == \/ j = 0 /\ j' \in 1..N /\ UNCHANGED <<i, l>>
        \/ Triples /\ j # 0 /\ l = 0 /\ l' \in 1..N /\ UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j, l>>

C(x, y) == Cmp(P[x], P[y], FALSE)
\* The laws.
Reflexive == VEq(P[i], P[i]) /\ C(i, i) = EQ
Pairs == j # 0 => /\ VEq(P[i], P[j]) = VEq(P[j], P[i])
                  /\ (C(i, j) = EQ) = VEq(P[i], P[j])
                  /\ C(j, i) = Turn(C(i, j))
                  /\ Rank(P[i]) < Rank(P[j]) => C(i, j) = LT
Three == l # 0 => /\ VEq(P[i], P[j]) /\ VEq(P[j], P[l]) => VEq(P[i], P[l])
                  /\ C(i, j) = LT /\ C(j, l) = LT => C(i, l) = LT
                  /\ C(i, j) = EQ => C(i, l) = C(j, l)
\* A Value against a plain bool, integer, float or string looks inside the tags;
\* a float compares as a number.
Plain(v, p) ==
    LET u == Untag(v) IN
    CASE p.ty = "bool" -> u.k = "bool" /\ u.b = p.v.b
      [] p.ty = "str"  -> u.k = "str" /\ u.s = p.v.s
      [] p.ty \in {"f32", "f64"} -> u.k \in {"int", "float"} /\ p.v.t # "nan" /\
                                    NormF(IF u.k = "int" THEN u.s ELSE u.t) = NormF(p.v.t)
      [] OTHER -> u.k = "int" /\ u.s = p.v.s
Emit == IF j = 0 THEN PrintT("@C" \o ToJson([op |-> "prims", v |-> P[i],
                        ps |-> [x \in 1..Len(Prims) |-> [ty |-> Prims[x].ty, v |-> Prims[x].v, r |-> Plain(P[i], Prims[x])]]]))
        ELSE l = 0 => PrintT("@C" \o ToJson([op |-> "pair", a |-> P[i], b |-> P[j], eq |-> VEq(P[i], P[j]), cmp |-> C(i, j)]))
=============================================================================
