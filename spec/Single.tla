-------------------------------- MODULE Single -------------------------------
(* The singleton_map adapters when writing: a call "sm" or "smr" wraps data      *)
(* whose enums with a payload become mappings of one entry; everything else       *)
(* stays as it is.                                                                *)
EXTENDS Ser

RECURSIVE ToAdapt(_, _, _, _)
ToAdapt(c, id, deep, here) ==
    LET n == c[id]
        deep2 == deep \/ n.k = "smr"
        here2 == n.k = "sm" \/ (here /\ n.k = "some")
    IN  (IF (deep \/ here) /\ n.k \in Tagging THEN {id} ELSE {})
        \cup UNION {ToAdapt(c, n.kids[i], deep2, here2) : i \in 1..Len(n.kids)}

Blank == [k |-> "", n |-> "", s |-> "", kids |-> <<>>, len |-> "exact", ms |-> <<>>, hint1 |-> FALSE]
AsEntry(how, key, payload) == [Blank EXCEPT !.k = "map", !.ms = how, !.kids = <<key, payload>>, !.hint1 = TRUE]
AdaptOne(c, id) ==
    LET n == c[id]
        l == Len(c)
        name == [Blank EXCEPT !.k = "str", !.s = n.n]
        put(m) == [c EXCEPT ![id] = m] \o <<name>>
    IN  CASE n.k = "nvar" -> put(AsEntry("entry", l + 1, n.kids[1]))
          [] n.k = "tvar" -> put(AsEntry("kv", l + 1, l + 2)) \o <<[Blank EXCEPT !.k = "seq", !.kids = n.kids]>>
          [] n.k = "svar" -> put(AsEntry("kv", l + 1, l + 2)) \o <<[Blank EXCEPT !.k = "struct", !.kids = n.kids, !.ms = n.ms]>>
RECURSIVE AdaptFrom(_, _, _)
AdaptFrom(c, S, i) ==
    IF i > Len(c) THEN c ELSE AdaptFrom(IF i \in S THEN AdaptOne(c, i) ELSE c, S, i + 1)
\* The calls that reach the serializer.
Adapted(c) == LET S == ToAdapt(c, 1, FALSE, FALSE) IN AdaptFrom(c, S, 1)

SingleCase(c, a, m) ==
    LET val == ToVal(a, 1)
        ty  == TypeOf(c, 1)
    IN  [op |-> "ser", calls |-> c, val |-> val, refused |-> Refused(a), repeats |-> Repeats(a), big |-> Big(a),
         back |-> IF m.err THEN Bad ELSE ReadValue(m.out),
         ty |-> ty,
         r |-> IF m.err THEN Bad ELSE ReadAs(m.out, ty),
         v |-> FromV(val, ty)]

(* --- properties of the model --- *)
\* What is refused, and that the text denotes the Value, as for any other data.
WritesAs(c, a, m) == /\ m.err <=> Refused(a)
                    /\ ~m.err /\ ~Repeats(a) => ToJson(ReadValue(m.out)) = ToJson(ToVal(a, 1))
\* Reading through the same adapter restores the data, from text and Value (C19).
Restored(c, a, m) ==
    Restorable(c) /\ Restorable(a) =>
        /\ REq(ReadAs(m.out, TypeOf(c, 1)), DataAs(c, a, 1))
        /\ REq(FromV(ToVal(a, 1), TypeOf(c, 1)), DataAs(c, a, 1))
\* No enum under the recursive adapter is written as a tag (C19).
NoTags(c, a, m) ==
    c[1].k = "smr" /\ (\A i \in 1..Len(c) : ~TagMap(c, i)) => \A i \in 1..Len(m.out) : m.out[i].k = "al" \/ m.out[i].tag = ""
\* Without enums the adapter changes nothing.
OnlyEnums(c, a) == (\A i \in 1..Len(c) : c[i].k \notin Tagging) => a = c
=============================================================================
