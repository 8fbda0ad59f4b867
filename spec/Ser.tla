--------------------------------- MODULE Ser ---------------------------------
(* Writing.  A table of serde calls (node 1 is the root) and three things      *)
(* about it: the Value it denotes, whether text can express it, and the        *)
(* streaming serializer as a state machine whose output is a document in the   *)
(* sense of module Read.  A call is a record [k, n, s, kids, len, ms]:          *)
(*   leaves   unit none ustruct bool(s) int(n type, s) float(n f32/f64, s)       *)
(*            char(s) str(s) bytes(s) uvar(n) disp(ms pieces)                    *)
(*   wrappers some nst nvar(n)                   exactly one kid                 *)
(*   seq tup tst tvar(n)                         kids                            *)
(*   map      kids are k1 v1 k2 v2 ..; len is the length hint: "exact" "none"    *)
(*            "one" (a wrong Some(1)); ms is how: "entry" or "kv"                *)
(*   struct svar(n)   kids are values, ms the field names                        *)
EXTENDS Doc

Transparent == {"some", "nst", "sm", "smr"}     \* (sm, smr: see module Single)
Wrappers == Transparent \cup {"nvar"}
Lists    == {"seq", "tup", "tst", "tvar"}
Fielded  == {"struct", "svar"}
Tagging  == {"nvar", "tvar", "svar"}
Opened   == Lists \cup Fielded \cup {"map"}

RECURSIVE Join(_, _)
Join(ps, i) == IF i > Len(ps) THEN "" ELSE ps[i] \o Join(ps, i + 1)

\* How Display is written decides whether it is taken for a tag: "!" and then,
\* in one piece, the name.
Pieces(ps) == SelectSeq(ps, LAMBDA x : x # "")
IsTagText(ps) == LET q == Pieces(ps) IN Len(q) = 2 /\ q[1] = "!"
TagText(ps)   == Pieces(ps)[2]

RECURSIVE Inner(_, _)                   \* the call below transparent wrappers
Inner(c, id) == IF c[id].k \in Transparent THEN Inner(c, c[id].kids[1]) ELSE id

(* ----------------------------- the meaning ------------------------------ *)
\* A map of one entry whose key displays as a tag is a tagged value.
TagMap(c, id) == LET n == c[id] IN
    n.k = "map" /\ n.len = "exact" /\ n.ms = "entry" /\ Len(n.kids) = 2
    /\ c[Inner(c, n.kids[1])].k = "disp" /\ IsTagText(c[Inner(c, n.kids[1])].ms)

Bang(n) == TagName("!" \o (IF First(n) = "!" /\ Len(n) > 1 THEN From(n, 2) ELSE n))

\* Later entries with the same key replace the value and keep the place.
Put(e, k, v) ==
    LET S == {j \in 1..Len(e) : VEq(e[j][1], k)}
    IN  IF S = {} THEN Append(e, <<k, v>>)
        ELSE [e EXCEPT ![CHOOSE j \in S : TRUE] = <<@[1], v>>]

BigInt(n) == n.k = "int" /\ LET l == IntLit(n.s) IN ~FitsInt64(l)

RECURSIVE ToVal(_, _)
RECURSIVE ToVals(_, _, _)
RECURSIVE ToEntries(_, _, _, _)
RECURSIVE ToFields(_, _, _, _)
ToVals(c, ks, i) == IF i > Len(ks) THEN <<>> ELSE <<ToVal(c, ks[i])>> \o ToVals(c, ks, i + 1)
ToEntries(c, ks, i, e) ==
    IF i > Len(ks) THEN e ELSE ToEntries(c, ks, i + 2, Put(e, ToVal(c, ks[i]), ToVal(c, ks[i + 1])))
ToFields(c, n, i, e) ==
    IF i > Len(n.kids) THEN e ELSE ToFields(c, n, i + 1, Put(e, VStr(n.ms[i]), ToVal(c, n.kids[i])))
ToVal(c, id) ==
    LET n == c[id]
        tagged(v) == VTag(Bang(n.n), v)
    IN
    CASE n.k \in {"unit", "none", "ustruct"} -> VNull
      [] n.k = "bool"   -> VBool(n.s = "true")
      [] n.k = "int"    -> IF BigInt(n) THEN VStr(n.s) ELSE VInt(IntLit(n.s).val)
      [] n.k = "float"  -> VFloat(F64Of(n.s))
      [] n.k \in {"char", "str"} -> VStr(n.s)
      [] n.k = "bytes"  -> VSeq([i \in 1..Len(n.s) |-> VInt(MkInt(FALSE, Canon(SubSeq(n.s, i, i), 16)))])
      [] n.k = "uvar"   -> VStr(n.n)
      [] n.k = "disp"   -> VStr(Join(n.ms, 1))
      [] n.k \in Transparent -> ToVal(c, n.kids[1])
      [] n.k = "nvar"   -> tagged(ToVal(c, n.kids[1]))
      [] n.k \in {"seq", "tup", "tst"} -> VSeq(ToVals(c, n.kids, 1))
      [] n.k = "tvar"   -> tagged(VSeq(ToVals(c, n.kids, 1)))
      [] n.k = "struct" -> VMap(ToFields(c, n, 1, <<>>))
      [] n.k = "svar"   -> tagged(VMap(ToFields(c, n, 1, <<>>)))
      [] n.k = "map"    -> IF TagMap(c, id)
                           THEN VTag(Bang(TagText(c[Inner(c, n.kids[1])].ms)), ToVal(c, n.kids[2]))
                           ELSE VMap(ToEntries(c, n.kids, 1, <<>>))

\* What text cannot express: bytes, and a tag directly on a tagged value.
TagsDirectly(c, id) == LET i == Inner(c, id) IN c[i].k \in Tagging \/ TagMap(c, i)
Refused(c) ==
    \E id \in 1..Len(c) :
        \/ c[id].k = "bytes"
        \/ c[id].k = "nvar" /\ TagsDirectly(c, c[id].kids[1])
        \/ TagMap(c, id) /\ TagsDirectly(c, c[id].kids[2])
\* Maps with equal keys have no text that can be read back.
Repeats(c) ==
    \E id \in 1..Len(c) :
        \/ /\ c[id].k = "map"
           /\ \E i, j \in 1..(Len(c[id].kids) \div 2) :
                  i < j /\ VEq(ToVal(c, c[id].kids[2 * i - 1]), ToVal(c, c[id].kids[2 * j - 1]))
Big(c) == \E id \in 1..Len(c) : BigInt(c[id])

(* ------------------------ the streaming serializer ---------------------- *)
(* m.st: "no" nothing in particular, "check" a one-entry map that may turn out *)
(* to be a tag, "dup" the same right after a tag, "tag" a tag waiting for its   *)
(* node, "already" that node is written.  out: nodes, open: open collections.   *)
MInit == [st |-> "no", tag |-> "", out |-> <<>>, open |-> <<>>, err |-> FALSE]

MAdd(m, n) == [m EXCEPT !.out = AddTo(m.out, m.open, n), !.st = IF m.st = "tag" THEN "no" ELSE m.st]
MTag(m)    == IF m.st = "tag" THEN (IF First(m.tag) = "!" THEN m.tag ELSE "!" \o m.tag) ELSE ""
MOpen(m, kind) ==
    LET a == MAdd(m, [k |-> kind, kids |-> <<>>, tag |-> MTag(m), an |-> ""])
    IN  [a EXCEPT !.open = Append(m.open, Len(a.out))]
MClose(m) == [m EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
MFlush(m) == CASE m.st = "check" -> MOpen([m EXCEPT !.st = "no"], "map")
               [] m.st = "dup"   -> [m EXCEPT !.st = "no"]
               [] OTHER          -> m
MStart(m, kind) == MOpen(MFlush(m), kind)
MScalar(m0, v, style) ==
    LET m == MFlush(m0) IN MAdd(m, [k |-> "sc", v |-> v, st |-> style, tag |-> MTag(m), an |-> ""])
MFail(m) == [m EXCEPT !.err = TRUE]
HasBreak(s) == \E i \in 1..Len(s) : Ch(s, i) = "\n"
MStr(m, s) == MScalar(m, s, IF HasBreak(s) THEN "l" ELSE IF NeedsQuotes(s) THEN "s" ELSE "p")
MName(m0, n) ==                          \* serialize_*_variant with a payload
    IF m0.st = "tag" THEN MFail(m0) ELSE LET m == MFlush(m0) IN [m EXCEPT !.st = "tag", !.tag = n]

\* A call that begins with node n.
MBegin(m, n) ==
    CASE n.k \in {"unit", "none", "ustruct"} -> MScalar(m, "null", "p")
      [] n.k \in {"bool", "int", "float"} -> MScalar(m, n.s, "p")
      [] n.k = "char"  -> MScalar(m, n.s, "s")
      [] n.k = "str"   -> MStr(m, n.s)
      [] n.k = "uvar"  -> MStr(m, n.n)
      [] n.k = "bytes" -> MFail(m)
      [] n.k = "disp"  -> IF m.st \in {"check", "dup"} /\ IsTagText(n.ms)
                          THEN IF m.st = "dup" THEN MFail(m)
                               ELSE [m EXCEPT !.st = "tag", !.tag = TagText(n.ms)]
                          ELSE MStr(m, Join(n.ms, 1))
      [] n.k \in Transparent -> m
      [] n.k = "nvar"  -> MName(m, n.n)
      [] n.k = "tvar"  -> LET a == MName(m, n.n) IN IF a.err THEN a ELSE MStart(a, "seq")
      [] n.k = "svar"  -> LET a == MName(m, n.n) IN IF a.err THEN a ELSE MStart(a, "map")
      [] n.k \in {"seq", "tup", "tst"} -> MStart(m, "seq")
      [] n.k = "struct" -> MStart(m, "map")
      [] n.k = "map"   ->
           IF n.hint1                    \* the length hint is Some(1)
           THEN IF m.st = "tag" THEN [MStart(m, "map") EXCEPT !.st = "dup"]
                ELSE [MFlush(m) EXCEPT !.st = "check"]
           ELSE MStart(m, "map")
\* The end of node n (a map's own rule is the one that matters).
MEnd(m, n) ==
    IF n.k = "map"
    THEN LET a == IF m.st = "check" THEN MStart([m EXCEPT !.st = "no"], "map") ELSE m
             b == IF a.st # "already" THEN MClose(a) ELSE a
         IN  [b EXCEPT !.st = "no"]
    ELSE IF n.k \in Lists \cup {"struct", "svar"} THEN MClose(m)
    ELSE m

\* Between the parts of a map: (slot counts its kids written so far.)
MBeforeKid(m, n, slot) ==
    IF n.k = "map" /\ n.ms = "kv" /\ slot % 2 = 0 THEN MFlush(m)
    ELSE IF n.k \in Fielded THEN MStr(m, n.ms[slot + 1])
    ELSE m

\* The whole run over a call and what is below it.
RECURSIVE MRun(_, _, _)
RECURSIVE MKids(_, _, _, _, _)
MKids(c, n, i, m, tagged) ==
    IF m.err \/ i > Len(n.kids) THEN m
    ELSE LET a == MBeforeKid(m, n, i - 1)
             b == MRun(c, n.kids[i], a)
         IN  IF n.k = "map" /\ n.ms = "entry"
             THEN IF i % 2 = 1 THEN MKids(c, n, i + 1, b, b.st = "tag")
                  ELSE MKids(c, n, i + 1, IF tagged /\ ~b.err THEN [b EXCEPT !.st = "already"] ELSE b, FALSE)
             ELSE MKids(c, n, i + 1, b, FALSE)
MRun(c, id, m) ==
    IF m.err THEN m
    ELSE LET n == c[id]
             a == MBegin(m, n)
         IN  IF a.err \/ ~(n.k \in Opened \cup Wrappers) THEN a
             ELSE LET b == MKids(c, n, 1, a, FALSE) IN IF b.err THEN b ELSE MEnd(b, n)

(* ------------------------- types to read it back ------------------------ *)
Decoy(n) == IF n = "Zz" THEN "Yy" ELSE "Zz"
Vs(v) == << [n |-> Decoy(v.n), k |-> "unit"], v >>
RECURSIVE TypeOf(_, _)
TypeOf(c, id) ==
    LET n == c[id]
        kid(i) == TypeOf(c, n.kids[i])
        kids == [i \in 1..Len(n.kids) |-> kid(i)]
        fs == [i \in 1..Len(n.kids) |-> [n |-> n.ms[i], s |-> kid(i)]]
        enum(v) == [t |-> "enum", vs |-> Vs(v)]
    IN
    CASE n.k \in {"unit", "ustruct"} -> [t |-> "unit"]
      [] n.k = "none"  -> [t |-> "opt", s |-> [t |-> "bool"]]
      [] n.k = "bool"  -> [t |-> "bool"]
      [] n.k = "int"   -> [t |-> n.n]
      [] n.k = "float" -> [t |-> n.n]
      [] n.k = "char"  -> [t |-> "char"]
      [] n.k \in {"str", "disp"} -> [t |-> "str"]
      [] n.k = "bytes" -> [t |-> "bytes"]
      [] n.k = "uvar"  -> enum([n |-> n.n, k |-> "unit"])
      [] n.k = "some"  -> [t |-> "opt", s |-> kid(1)]
      [] n.k = "nst"   -> [t |-> "new", s |-> kid(1)]
      [] n.k \in {"sm", "smr"} -> [t |-> n.k, s |-> kid(1)]
      [] n.k = "nvar"  -> enum([n |-> n.n, k |-> "new", s |-> kid(1)])
      [] n.k \in {"seq", "tup", "tst"} -> [t |-> "tup", ss |-> kids]
      [] n.k = "tvar"  -> enum([n |-> n.n, k |-> "tup", ss |-> kids])
      [] n.k = "struct" -> [t |-> "struct", fs |-> fs, deny |-> TRUE]
      [] n.k = "svar"  -> enum([n |-> n.n, k |-> "struct", fs |-> fs])
      [] n.k = "map"   -> IF Len(n.kids) = 2 /\ ~TagMap(c, id) THEN [t |-> "map", ks |-> kid(1), s |-> kid(2)]
                          ELSE [t |-> "any"]
\* The data itself, in the form of a result. (v: the calls as written.)
RECURSIVE DataAs(_, _, _)
DataOf(c, id) == DataAs(c, c, id)
DataAs(c, v, id) ==
    LET n == c[id]
        kids == [i \in 1..Len(n.kids) |-> DataAs(c, v, n.kids[i])]
        var(r) == [k |-> "enum", n |-> n.n, v |-> r]
    IN
    CASE n.k \in {"unit", "ustruct"} -> Unit
      [] n.k = "none" -> RNone
      [] n.k \in {"bool", "float"} -> ToVal(c, id)
      [] n.k = "int"  -> VInt(IntLit(n.s).val)
      [] n.k \in {"char", "str", "disp", "bytes"} -> ToVal(c, id)
      [] n.k = "uvar" -> var(Unit)
      [] n.k = "some" -> RSome(kids[1])
      [] n.k \in {"nst", "sm", "smr"} -> kids[1]
      [] n.k = "nvar" -> var(kids[1])
      [] n.k \in {"seq", "tup", "tst"} -> VSeq(kids)
      [] n.k = "tvar" -> var(VSeq(kids))
      [] n.k = "struct" -> [k |-> "struct", e |-> kids]
      [] n.k = "svar" -> var([k |-> "struct", e |-> kids])
      [] n.k = "map"  -> IF Len(n.kids) = 2 /\ ~TagMap(c, id) THEN VMap(<< <<kids[1], kids[2]>> >>)
                         ELSE ToVal(v, id)

\* What a null stands for is not told by the text: Some of a null is None.
NullInside(c, id) == LET i == Inner(c, id) IN c[i].k \in {"unit", "none", "ustruct"}
Restorable(c) ==
    /\ ~Refused(c) /\ ~Repeats(c)
    /\ \A id \in 1..Len(c) : /\ c[id].k = "some" => ~NullInside(c, c[id].kids[1]) /\ c[Inner(c, id)].k # "some"
                             /\ c[id].k = "map" /\ Len(c[id].kids) # 2 => ~Big(c)
                             \* text tells that a one-entry map was a tag; a type map cannot
                             /\ ~TagMap(c, id) \/ ~Big(c)

SerCase(c, m) ==
    LET val == ToVal(c, 1)
        ty  == TypeOf(c, 1)
    IN  [op |-> "ser", calls |-> c, val |-> val, refused |-> Refused(c), repeats |-> Repeats(c), big |-> Big(c),
         back |-> IF m.err THEN Bad ELSE ReadValue(m.out),
         ty |-> ty,
         r |-> IF m.err THEN Bad ELSE ReadAs(m.out, ty),
         v |-> FromV(val, ty)]
=============================================================================
