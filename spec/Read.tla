-------------------------------- MODULE Read --------------------------------
(* What reading a document means: as a Value, as a type, and as a type        *)
(* through a Value.  A document is a table of nodes (node 1 is the root):      *)
(*   [k |-> "sc", v, st, tag]   scalar of style st ("p" plain, s d l f)         *)
(*   [k |-> "seq"|"map", kids, tag]   (keys and values alternate in kids)       *)
(*   [k |-> "al", to]           alias of node to, 0 when the name is unknown    *)
(*   [k |-> "void"]             the only "node" of an empty stream              *)
(* A result is a value or an error [k |-> "err", c, at, path]: at is the node   *)
(* the error points at (0: none) and path what the message names.               *)
EXTENDS Scalar

(* ------------------------------- values -------------------------------- *)
VSeq(e) == [k |-> "seq", e |-> e]
VMap(e) == [k |-> "map", e |-> e]

\* Equality of values: kind first (TLC refuses to compare unlike things),
\* mappings regardless of order, floats by their literal.
RECURSIVE VEq(_, _)
VEq(a, b) ==
    IF a.k # b.k THEN FALSE
    ELSE CASE a.k = "null" -> TRUE
           [] a.k = "bool" -> a.b = b.b
           [] a.k = "int" -> a.s = b.s
           [] a.k = "float" -> FEq(a.t, b.t)
           [] a.k = "str" -> a.s = b.s
           [] a.k = "seq" -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : VEq(a.e[i], b.e[i])
           [] a.k = "map" -> Len(a.e) = Len(b.e)
                             /\ \A i \in 1..Len(a.e) : \E j \in 1..Len(b.e) :
                                    VEq(a.e[i][1], b.e[j][1]) /\ VEq(a.e[i][2], b.e[j][2])
           [] a.k = "tag" -> a.t = b.t /\ VEq(a.v, b.v)

RECURSIVE Untag(_)
Untag(v) == IF v.k = "tag" THEN Untag(v.v) ELSE v

(* ------------------------------- results ------------------------------- *)
ROk(e)   == [k |-> "ok", e |-> e]
Unit     == [k |-> "unit"]
RNone    == [k |-> "none"]
RSome(r) == [k |-> "some", v |-> r]
Then(r, F(_)) == IF r.k = "err" THEN r ELSE F(r)

EMsg        == [k |-> "err", c |-> "msg", at |-> 0, path |-> ""]
EAnchor(id) == [k |-> "err", c |-> "anchor", at |-> id, path |-> ""]
ERec(id)    == [k |-> "err", c |-> "rec", at |-> id, path |-> ""]
EEos        == [k |-> "err", c |-> "eos", at |-> 0, path |-> ""]
EBytes      == [k |-> "err", c |-> "bytes", at |-> 0, path |-> ""]
\* An error about the data gets the innermost place that reports it.
Fix(r, id, p) == IF r.k = "err" /\ r.c = "msg" /\ r.at = 0
                 THEN [r EXCEPT !.at = id, !.path = p] ELSE r
\* The lexical layer's errors have no place yet.
Lex(r) == IF r.k = "err" THEN EMsg ELSE r

PathSeq(p, i) == p \o "[" \o ToString(i) \o "]"
PathMap(p, n) == (IF p = "." THEN "" ELSE p \o ".") \o (IF n.k = "sc" THEN n.v ELSE "?")

Kids(n) == IF n.k \in {"seq", "map"} THEN n.kids ELSE <<>>

\* The first unknown alias at or below a node, in document order; 0 if none.
RECURSIVE UnknownIn(_, _)
RECURSIVE UnknownAmong(_, _, _)
UnknownAmong(doc, ks, i) ==
    IF i > Len(ks) THEN 0
    ELSE LET u == UnknownIn(doc, ks[i]) IN IF u # 0 THEN u ELSE UnknownAmong(doc, ks, i + 1)
UnknownIn(doc, id) ==
    LET n == doc[id] IN
    IF n.k = "al" THEN (IF n.to = 0 THEN id ELSE 0) ELSE UnknownAmong(doc, Kids(n), 1)

Skip(doc, id) == LET u == UnknownIn(doc, id) IN IF u # 0 THEN EAnchor(u) ELSE Unit
RECURSIVE SkipAll(_, _, _)
SkipAll(doc, ks, i) ==
    IF i > Len(ks) THEN Unit
    ELSE LET r == Skip(doc, ks[i]) IN IF r.k = "err" THEN r ELSE SkipAll(doc, ks, i + 1)

EmptyPlain(n) == n.k = "sc" /\ n.st = "p" /\ n.v = ""

(* ------------------------------- reading ------------------------------- *)
(* s is the target type (a "schema"), a record with field t:                   *)
(*   any ign bool i8..u128 f64 str char bytes unit                              *)
(*   opt[s] new[s] seq[s] tup[ss] map[ks,s] struct[fs,deny] enum[vs]            *)
(* fs: <<[n, s]>>;  vs: <<[n, k, s | ss | fs]>> with k unit new tup struct.     *)
(* d: remaining depth; tg: the tag of this node has selected an enum variant.   *)
(*   ref[name]: one of the recursive types below                                *)
(*   raw: a visitor that takes down whatever is there                           *)
(*   bbuf: bytes, of a string or a sequence (text has none)                      *)
(*   sos[fs,deny]: a visitor of whatever is there that takes a string or a struct *)
(*   untag[ss] itag[ss] atag[ss] flat[ss]: derived types that keep what they     *)
(*   read in memory before they know what it is: untagged alternatives, enums    *)
(*   with the variant's name in the entry "t" (and the payload in the same       *)
(*   mapping, or in the entry "c"), a struct of x and all the other entries.     *)
Ref(name) == [t |-> "ref", name |-> name]
Named(name) ==
    CASE name = "RSeq"    -> [t |-> "seq", s |-> Ref("RSeq")]
      [] name = "RMap"    -> [t |-> "map", ks |-> [t |-> "str"], s |-> Ref("RMap")]
      [] name = "RStruct" -> [t |-> "struct", fs |-> << [n |-> "x", s |-> [t |-> "opt", s |-> Ref("RStruct")]] >>, deny |-> FALSE]
      [] name = "RNew"    -> [t |-> "opt", s |-> [t |-> "new", s |-> [t |-> "seq", s |-> Ref("RNew")]]]
      [] name = "REnum"   -> [t |-> "enum", vs |-> << [n |-> "T", k |-> "tup", ss |-> <<Ref("REnum"), [t |-> "any"]>>],
                                                     [n |-> "N", k |-> "new", s |-> [t |-> "seq", s |-> Ref("REnum")]],
                                                     [n |-> "S", k |-> "struct", fs |-> << [n |-> "x", s |-> Ref("REnum")] >>],
                                                     [n |-> "U", k |-> "unit"] >>]
IntTypes == Ints
NoField == [k |-> "unset"]

FieldIdx(fs, name) ==
    LET S == {i \in 1..Len(fs) : fs[i].n = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* Fields that were not given: None for options, an error for others.
RECURSIVE Complete(_, _, _)
Complete(fs, got, i) ==
    IF i > Len(fs) THEN ROk(<<>>)
    ELSE IF got[i].k = "unset" /\ fs[i].s.t # "opt" THEN EMsg
    ELSE LET rest == Complete(fs, got, i + 1)
         IN  IF rest.k = "err" THEN rest
             ELSE ROk(<<IF got[i].k = "unset" THEN RNone ELSE got[i]>> \o rest.e)

(* ----------------------- singleton_map adapters ------------------------ *)
\* The type as the adapter sees it: enums ("senum") are the bare name of a unit
\* variant or a mapping of one entry; the shallow form reaches through options.
RECURSIVE SType(_, _)
SType(s, deep) ==
    LET sub(x) == SType(x, TRUE)
        inV(v) == CASE v.k = "new"    -> [v EXCEPT !.s = sub(@)]
                    [] v.k = "tup"    -> [v EXCEPT !.ss = [i \in 1..Len(@) |-> sub(@[i])]]
                    [] v.k = "struct" -> [v EXCEPT !.fs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.s = sub(@)]]]
                    [] OTHER          -> v
    IN  CASE s.t = "enum" -> [t |-> "senum", vs |-> IF deep THEN [i \in 1..Len(s.vs) |-> inV(s.vs[i])] ELSE s.vs]
          [] s.t = "opt"  -> [s EXCEPT !.s = SType(@, deep)]
          [] deep /\ s.t = "atag" -> [t |-> "atag", ss |-> [i \in 1..Len(s.ss) |-> sub(s.ss[i])], sm |-> TRUE]
          [] deep /\ s.t \in {"new", "seq"} -> [s EXCEPT !.s = sub(@)]
          [] deep /\ s.t = "map"    -> [s EXCEPT !.s = sub(@), !.ks = sub(@)]
          [] deep /\ s.t = "tup"    -> [s EXCEPT !.ss = [i \in 1..Len(@) |-> sub(@[i])]]
          [] deep /\ s.t \in {"struct", "sos"} -> [s EXCEPT !.fs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.s = sub(@)]]]
          [] OTHER -> s
\* The type of a variant's payload.
Payload(v) == CASE v.k = "new"    -> v.s
                [] v.k = "tup"    -> [t |-> "tup", ss |-> v.ss]
                [] v.k = "struct" -> [t |-> "struct", fs |-> v.fs, deny |-> FALSE]

(* ------------------------- what is kept in memory ----------------------- *)
(* A raw result: null none bool int float str seq map tag; mappings keep every  *)
(* entry.  Serde keeps no tags and no integers beyond 64 bits ("content").      *)
Raw     == [t |-> "raw"]
Content == [t |-> "content"]
Picked(n, r) == IF r.k = "err" THEN r ELSE [k |-> "enum", n |-> n, v |-> r]
Absent(s) == IF s.t = "opt" THEN RNone ELSE EMsg

\* The Value of a kept thing.
RECURSIVE KeptValue(_)
RECURSIVE KeptSeq(_, _)
RECURSIVE KeptMap(_, _, _)
KeptSeq(e, i) == IF i > Len(e) THEN ROk(<<>>)
                 ELSE LET r == KeptValue(e[i]) IN
                      IF r.k = "err" THEN r
                      ELSE LET rest == KeptSeq(e, i + 1) IN IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
KeptMap(e, i, acc) == IF i > Len(e) THEN ROk(acc)
                      ELSE LET a == KeptValue(e[i][1])
                               b == KeptValue(e[i][2])
                           IN  IF a.k = "err" THEN a ELSE IF b.k = "err" THEN b
                               ELSE IF \E j \in 1..Len(acc) : VEq(acc[j][1], a) THEN EMsg
                               ELSE KeptMap(e, i + 1, Append(acc, <<a, b>>))
KeptValue(c) ==
    CASE c.k = "none" -> VNull
      [] c.k = "seq" -> LET r == KeptSeq(c.e, 1) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] c.k = "map" -> LET r == KeptMap(c.e, 1, <<>>) IN IF r.k = "err" THEN r ELSE VMap(r.e)
      [] OTHER -> c

\* Reading a type from what was kept; own: what was kept is used up by it.
RECURSIVE FromC(_, _, _)
RECURSIVE FromCSeq(_, _, _, _)
RECURSIVE FromCTup(_, _, _, _)
RECURSIVE FromCMap(_, _, _, _, _)
RECURSIVE FromCFields(_, _, _, _, _)
RECURSIVE FirstOf(_, _, _, _)
FromCSeq(e, i, s, own) ==
    IF i > Len(e) THEN ROk(<<>>)
    ELSE LET r == FromC(e[i], s, own) IN
         IF r.k = "err" THEN r
         ELSE LET rest == FromCSeq(e, i + 1, s, own) IN IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
FromCTup(e, i, ss, own) ==
    IF i > Len(ss) THEN IF i > Len(e) THEN ROk(<<>>) ELSE EMsg
    ELSE IF i > Len(e) THEN EMsg
    ELSE LET r == FromC(e[i], ss[i], own) IN
         IF r.k = "err" THEN r
         ELSE LET rest == FromCTup(e, i + 1, ss, own) IN IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
FromCMap(e, i, kt, s, own) ==
    IF i > Len(e) THEN ROk(<<>>)
    ELSE LET a == FromC(e[i][1], kt, own)
             b == FromC(e[i][2], s, own)
         IN  IF a.k = "err" THEN a ELSE IF b.k = "err" THEN b
             ELSE LET rest == FromCMap(e, i + 1, kt, s, own)
                  IN  IF rest.k = "err" THEN rest ELSE ROk(<< <<a, b>> >> \o rest.e)
\* (An integer key counts the fields.)
FromCFields(e, i, s, got, own) ==
    IF i > Len(e) THEN Complete(s.fs, got, 1)
    ELSE LET key == e[i][1]
             small == key.k = "int" /\ Len(key.s) = 1 /\ IntOf(key.s, "u8").k # "err" /\ DigitVal[key.s] < Len(s.fs)
             f == IF key.k = "str" THEN FieldIdx(s.fs, key.s) ELSE IF small THEN DigitVal[key.s] + 1 ELSE 0
         IN  IF key.k # "str" /\ ~(key.k = "int" /\ First(key.s) # "-") THEN EMsg
             ELSE IF f = 0 THEN IF s.deny THEN EMsg ELSE FromCFields(e, i + 1, s, got, own)
             ELSE IF got[f].k # "unset" THEN EMsg
             ELSE LET r == FromC(e[i][2], s.fs[f].s, own)
                  IN  IF r.k = "err" THEN r ELSE FromCFields(e, i + 1, s, [got EXCEPT ![f] = r], own)
\* The first alternative that reads it.
FirstOf(c, i, ss, own) ==
    IF i > Len(ss) THEN EMsg
    ELSE LET r == FromC(c, ss[i], FALSE)
         IN  IF r.k # "err" THEN Picked(ToString(i - 1), r) ELSE FirstOf(c, i + 1, ss, own)
FromC(c, s, own) ==
    LET t == s.t
        tuple(ss) == IF c.k # "seq" THEN EMsg
                     ELSE LET r == FromCTup(c.e, 1, ss, own) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
    IN
    CASE t = "raw" -> c
      [] t = "any" -> KeptValue(c)
      [] t = "ign" -> Unit
      [] t = "bool" -> IF c.k = "bool" THEN c ELSE EMsg
      [] t \in {"i128", "u128"} -> EMsg
      [] t \in IntTypes -> IF c.k = "int" THEN Lex(IntOf(c.s, t)) ELSE EMsg
      [] t \in {"f64", "f32"} -> IF c.k = "int" THEN VFloat(c.s) ELSE IF c.k = "float" THEN c ELSE EMsg
      [] t = "str" -> IF c.k = "str" THEN c ELSE EMsg
      [] t = "char" -> IF c.k = "str" /\ Len(c.s) = 1 THEN c ELSE EMsg
      [] t = "unit" -> IF c.k = "null" \/ (own /\ c.k = "map" /\ Len(c.e) = 0) THEN Unit ELSE EMsg
      [] t = "opt" -> IF c.k \in {"none", "null"} THEN RNone
                      ELSE LET r == FromC(c, s.s, own) IN IF r.k = "err" THEN r ELSE RSome(r)
      [] t = "new" -> FromC(c, s.s, own)
      [] t = "seq" -> IF c.k # "seq" THEN EMsg
                      ELSE LET r == FromCSeq(c.e, 1, s.s, own) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] t = "tup" -> tuple(s.ss)
      [] t = "map" -> IF c.k # "map" THEN EMsg
                      ELSE LET r == FromCMap(c.e, 1, s.ks, s.s, own) IN IF r.k = "err" THEN r ELSE VMap(r.e)
      [] t = "struct" ->
            IF c.k = "seq"
            THEN LET r == tuple([i \in 1..Len(s.fs) |-> s.fs[i].s])
                 IN  IF r.k = "err" THEN r ELSE [k |-> "struct", e |-> r.e]
            ELSE IF c.k # "map" THEN EMsg
            ELSE LET r == FromCFields(c.e, 1, s, [i \in 1..Len(s.fs) |-> NoField], own)
                 IN  IF r.k = "err" THEN r ELSE [k |-> "struct", e |-> r.e]
      [] t = "untag" -> FirstOf(c, 1, s.ss, own)
      [] t = "bbuf" -> IF c.k = "str" THEN c ELSE IF c.k # "seq" THEN EMsg ELSE FromC(c, [t |-> "seq", s |-> [t |-> "u8"]], own)
      [] t = "sos" -> IF c.k = "str" THEN c ELSE IF c.k = "map" THEN FromC(c, [s EXCEPT !.t = "struct"], own) ELSE EMsg

\* An internally tagged enum, once the variant is known (C is a unit variant).
VariantNo(name) == IF name = "A" THEN 1 ELSE IF name = "B" THEN 2 ELSE IF name = "C" THEN 3 ELSE 0
RdInVariant(f, c, ss) ==
    IF f = 3 THEN IF c.k = "seq" /\ Len(c.e) > 0 THEN EMsg ELSE Picked("C", Unit)
    ELSE IF f > Len(ss) THEN EMsg
    ELSE Picked(IF f = 1 THEN "A" ELSE "B", FromC(c, ss[f], TRUE))
\* A flattened rest.
RdRest(e, s) ==
    CASE s.t \in {"ign", "unit"} -> Unit
      [] s.t = "raw" -> VMap(e)
      [] s.t = "any" -> KeptValue(VMap(e))
      [] s.t = "map" -> LET r == FromCMap(e, 1, s.ks, s.s, FALSE) IN IF r.k = "err" THEN r ELSE VMap(r.e)
      [] s.t = "struct" -> LET mine(x) == FieldIdx(s.fs, x[1].s) # 0
                               r == FromCFields(SelectSeq(e, mine), 1, s, [i \in 1..Len(s.fs) |-> NoField], TRUE)
                           IN  IF r.k = "err" THEN r ELSE [k |-> "struct", e |-> r.e]
\* Payload and variant of an adjacently tagged enum.
AdjUnits(s) == [t |-> IF "sm" \in DOMAIN s THEN "senum" ELSE "enum", vs |-> << [n |-> "A", k |-> "unit"], [n |-> "B", k |-> "unit"] >>]
AdjDone(st, ss) ==
    IF st.f = 0 THEN EMsg
    ELSE IF st.r.k = "unset" THEN Picked(IF st.f = 1 THEN "A" ELSE "B", Absent(ss[st.f]))
    ELSE Picked(IF st.f = 1 THEN "A" ELSE "B", st.r)

RECURSIVE Rd(_, _, _, _, _, _)
RECURSIVE RdInside(_, _, _, _, _, _, _)
RECURSIVE RdFlat(_, _, _, _, _, _, _, _)
RECURSIVE RdAdj(_, _, _, _, _, _, _)
RECURSIVE RdSeq(_, _, _, _, _, _)
RECURSIVE RdTup(_, _, _, _, _, _)
RECURSIVE RdTake(_, _, _, _, _, _, _)
RECURSIVE RdAsk(_, _, _, _, _, _, _)
RECURSIVE RdMap(_, _, _, _, _, _, _)
RECURSIVE RdValueMap(_, _, _, _, _, _)
RECURSIVE RdFields(_, _, _, _, _, _, _)

RdSeq(doc, ks, i, s, d, p) ==
    IF i > Len(ks) THEN ROk(<<>>)
    ELSE LET r == Rd(doc, ks[i], s, d, FALSE, PathSeq(p, i - 1))
         IN  IF r.k = "err" THEN r
             ELSE LET rest == RdSeq(doc, ks, i + 1, s, d, p)
                  IN  IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)

\* Exactly as many elements as types; what is left over is looked at, and refused.
RdTup(doc, ks, i, ss, d, p) ==
    IF i > Len(ss)
    THEN IF i > Len(ks) THEN ROk(<<>>)
         ELSE LET r == SkipAll(doc, ks, i) IN IF r.k = "err" THEN r ELSE EMsg
    ELSE IF i > Len(ks) THEN EMsg
    ELSE LET r == Rd(doc, ks[i], ss[i], d, FALSE, PathSeq(p, i - 1))
         IN  IF r.k = "err" THEN r
             ELSE LET rest == RdTup(doc, ks, i + 1, ss, d, p)
                  IN  IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)

\* Visitors that stop early: at most n elements; a list of ways to ask for entries
\* ("e" entry, "v" key then value, "k" the key alone).
RdTake(doc, ks, i, n, s, d, p) ==
    IF i > Len(ks) THEN ROk(<<>>)
    ELSE IF n = 0 THEN LET r == SkipAll(doc, ks, i) IN IF r.k = "err" THEN r ELSE EMsg
    ELSE LET r == Rd(doc, ks[i], s, d, FALSE, PathSeq(p, i - 1))
         IN  IF r.k = "err" THEN r
             ELSE LET rest == RdTake(doc, ks, i + 1, n - 1, s, d, p)
                  IN  IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
RdAsk(doc, ks, i, prog, t, d, p) ==
    IF i > Len(ks) THEN ROk(<<>>)
    ELSE IF prog = <<>> THEN LET r == SkipAll(doc, ks, i) IN IF r.k = "err" THEN r ELSE EMsg
    ELSE LET key == Rd(doc, ks[i], t.ks, d, FALSE, p)
         IN  IF key.k = "err" THEN key
             ELSE IF prog[1] = "k" THEN EMsg       \* (a value must not be left behind)
             ELSE LET r == Rd(doc, ks[i + 1], t.s, d, FALSE, PathMap(p, doc[ks[i]]))
                  IN  IF r.k = "err" THEN r
                      ELSE LET rest == RdAsk(doc, ks, i + 2, Tail(prog), t, d, p)
                           IN  IF rest.k = "err" THEN rest ELSE ROk(<< <<key, r>> >> \o rest.e)

RdMap(doc, ks, i, kt, s, d, p) ==
    IF i > Len(ks) THEN ROk(<<>>)
    ELSE LET key == Rd(doc, ks[i], kt, d, FALSE, p)
         IN  IF key.k = "err" THEN key
             ELSE LET r == Rd(doc, ks[i + 1], s, d, FALSE, PathMap(p, doc[ks[i]]))
                  IN  IF r.k = "err" THEN r
                      ELSE LET rest == RdMap(doc, ks, i + 2, kt, s, d, p)
                           IN  IF rest.k = "err" THEN rest ELSE ROk(<< <<key, r>> >> \o rest.e)

\* The entries of a Mapping: a repeated key is refused where it appears.
RdValueMap(doc, ks, i, acc, d, p) ==
    IF i > Len(ks) THEN ROk(acc)
    ELSE LET key == Rd(doc, ks[i], [t |-> "any"], d, FALSE, p)
         IN  IF key.k = "err" THEN key
             ELSE IF \E j \in 1..Len(acc) : VEq(acc[j][1], key) THEN EMsg
             ELSE LET r == Rd(doc, ks[i + 1], [t |-> "any"], d, FALSE, PathMap(p, doc[ks[i]]))
                  IN  IF r.k = "err" THEN r
                      ELSE RdValueMap(doc, ks, i + 2, Append(acc, <<key, r>>), d, p)

RdFields(doc, ks, i, s, got, d, p) ==
    IF i > Len(ks) THEN Complete(s.fs, got, 1)
    ELSE LET key == Rd(doc, ks[i], [t |-> "str"], d, FALSE, p)
         IN  IF key.k = "err" THEN key
             ELSE LET f == FieldIdx(s.fs, key.s)
                      q == PathMap(p, doc[ks[i]])
                      val == doc[ks[i]]
                  IN  IF f = 0
                      THEN IF s.deny THEN Fix(EMsg, IF val.k = "al" THEN val.to ELSE ks[i], p)
                           ELSE LET r == Skip(doc, ks[i + 1])
                                IN  IF r.k = "err" THEN r ELSE RdFields(doc, ks, i + 2, s, got, d, p)
                      ELSE IF got[f].k # "unset" THEN EMsg
                      ELSE LET r == Rd(doc, ks[i + 1], s.fs[f].s, d, FALSE, q)
                           IN  IF r.k = "err" THEN r
                               ELSE RdFields(doc, ks, i + 2, s, [got EXCEPT ![f] = r], d, p)

\* The entries of an internally tagged enum: its variant, and what is kept.
RdInside(doc, ks, i, f, acc, d, p) ==
    IF i > Len(ks) THEN IF f = 0 THEN EMsg ELSE ROk(<<f, VMap(acc)>>)
    ELSE LET key == Rd(doc, ks[i], Content, d, FALSE, p) IN
         IF key.k = "err" THEN key
         ELSE LET q == PathMap(p, doc[ks[i]]) IN
              IF key.k = "str" /\ key.s = "t"
              THEN IF f # 0 THEN EMsg
                   ELSE LET v == Rd(doc, ks[i + 1], [t |-> "variant"], d, FALSE, q)
                        IN  IF v.k = "err" THEN v ELSE RdInside(doc, ks, i + 2, v.f, acc, d, p)
              ELSE LET r == Rd(doc, ks[i + 1], Content, d, FALSE, q)
                   IN  IF r.k = "err" THEN r ELSE RdInside(doc, ks, i + 2, f, Append(acc, <<key, r>>), d, p)
RdFlat(doc, ks, i, ss, x, acc, d, p) ==
    IF i > Len(ks)
    THEN LET a == IF x.k = "unset" THEN Absent(ss[1]) ELSE x IN
         IF a.k = "err" THEN a
         ELSE LET b == RdRest(acc, ss[2]) IN IF b.k = "err" THEN b ELSE ROk(<<a, b>>)
    ELSE LET key == Rd(doc, ks[i], [t |-> "str"], d, FALSE, p)
             q == PathMap(p, doc[ks[i]])
         IN  IF key.k = "err" THEN key
             ELSE IF key.s = "x"
             THEN IF x.k # "unset" THEN EMsg
                  ELSE LET r == Rd(doc, ks[i + 1], ss[1], d, FALSE, q)
                       IN  IF r.k = "err" THEN r ELSE RdFlat(doc, ks, i + 2, ss, r, acc, d, p)
             ELSE LET r == Rd(doc, ks[i + 1], Content, d, FALSE, q)
                  IN  IF r.k = "err" THEN r ELSE RdFlat(doc, ks, i + 2, ss, x, Append(acc, <<key, r>>), d, p)
\* st: the variant f (0: not yet), the payload kept (c) or read (r).
RdAdj(doc, ks, i, s, st, d, p) ==
    IF i > Len(ks) THEN AdjDone(st, s.ss)
    ELSE LET key == Rd(doc, ks[i], [t |-> "str"], d, FALSE, p)
             q == PathMap(p, doc[ks[i]])
         IN  IF key.k = "err" THEN key
             ELSE IF key.s = "t"
             THEN IF st.f # 0 THEN EMsg
                  ELSE LET v == Rd(doc, ks[i + 1], AdjUnits(s), d, FALSE, q) IN
                       IF v.k = "err" THEN v
                       ELSE LET f == VariantNo(v.n)
                                r == IF st.c.k = "unset" THEN NoField ELSE FromC(st.c, s.ss[f], TRUE)
                            IN  IF r.k = "err" THEN r
                                ELSE RdAdj(doc, ks, i + 2, s, [f |-> f, c |-> st.c, r |-> r], d, p)
             ELSE IF key.s = "c"
             THEN IF st.c.k # "unset" \/ st.r.k # "unset" THEN EMsg
                  ELSE LET r == Rd(doc, ks[i + 1], IF st.f = 0 THEN Content ELSE s.ss[st.f], d, FALSE, q)
                       IN  IF r.k = "err" THEN r
                           ELSE RdAdj(doc, ks, i + 2, s, IF st.f = 0 THEN [st EXCEPT !.c = r] ELSE [st EXCEPT !.r = r], d, p)
             ELSE LET r == Skip(doc, ks[i + 1])
                  IN  IF r.k = "err" THEN r ELSE RdAdj(doc, ks, i + 2, s, st, d, p)

Rd(doc, id, s, d, tg, p) ==
    LET n == doc[id]
        coll == n.k \in {"seq", "map"}
        tag  == IF n.k \in {"sc", "seq", "map"} THEN n.tag ELSE ""
        local == IsLocal(tag)
        t == s.t
        \* typed reading of a scalar looks at plain text (or a literal block with the core tag)
        readable(core) == n.k = "sc" /\ (n.st = "p" \/ (n.st = "l" /\ tag = core /\ ~tg))
        wrong == IF n.k = "void" THEN EEos ELSE Fix(EMsg, id, p)
        aseq(F(_)) == IF n.k = "seq" THEN IF d = 0 THEN ERec(id) ELSE Fix(F(n.kids), id, p)
                      ELSE IF EmptyPlain(n) \/ n.k = "void" THEN Fix(F(<<>>), id, p)
                      ELSE wrong
        amap(F(_)) == IF n.k = "map" THEN IF d = 0 THEN ERec(id) ELSE Fix(F(n.kids), id, p)
                      ELSE IF EmptyPlain(n) \/ n.k = "void" THEN Fix(F(<<>>), id, p)
                      ELSE wrong
        tuple(ss)  == LET f(ks) == RdTup(doc, ks, 1, ss, d - 1, p)
                          r == aseq(f)
                      IN  IF r.k = "err" THEN r ELSE VSeq(r.e)
        struct(x)  == LET f(ks) == RdFields(doc, ks, 1, x, [i \in 1..Len(x.fs) |-> NoField], d - 1, p)
                          r == amap(f)
                      IN  IF r.k = "err" THEN r ELSE [k |-> "struct", e |-> r.e]
        variant(name) == FieldIdx(s.vs, name)
        \* a variant named by a tag: this node is its payload
        bytag == LET f == variant(TagName(tag))
                     v == s.vs[f]
                     r == CASE v.k = "unit"   -> Rd(doc, id, [t |-> "unit"], d, TRUE, p)
                            [] v.k = "new"    -> Rd(doc, id, v.s, d, TRUE, p)
                            [] v.k = "tup"    -> Rd(doc, id, [t |-> "tup", ss |-> v.ss], d, TRUE, p)
                            [] v.k = "struct" -> Rd(doc, id, [t |-> "struct", fs |-> v.fs, deny |-> FALSE], d, TRUE, p)
                 IN  IF f = 0 THEN EMsg          \* (reported at what encloses the node)
                     ELSE IF r.k = "err" THEN r
                     ELSE [k |-> "enum", n |-> v.n, v |-> r]
        \* a variant named by the scalar itself
        byname == LET f == variant(n.v)
                  IN  IF f = 0 \/ s.vs[f].k # "unit" THEN Fix(EMsg, id, p)
                      ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> Unit]
        \* a mapping of one entry, from the variant's name to its payload
        single(ks) ==
            IF ks = <<>> THEN EMsg
            ELSE LET key == Rd(doc, ks[1], [t |-> "str"], d - 1, FALSE, p)
                 IN  IF key.k = "err" THEN key
                     ELSE LET f == variant(key.s)
                              at1 == doc[ks[1]]
                          IN  IF f = 0 THEN Fix(EMsg, IF at1.k = "al" THEN at1.to ELSE ks[1], p)
                              ELSE IF s.vs[f].k = "unit" THEN EMsg
                              ELSE LET r == Rd(doc, ks[2], Payload(s.vs[f]), d - 1, FALSE, PathMap(p, doc[ks[1]]))
                                   IN  IF r.k = "err" THEN r
                                       ELSE IF Len(ks) > 2
                                            THEN LET e == Skip(doc, ks[3]) IN IF e.k = "err" THEN e ELSE EMsg
                                       ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> r]
    IN
    CASE t = "ref" -> Rd(doc, id, Named(s.name), d, tg, p)
      [] t \in {"sm", "smr"} -> Rd(doc, id, SType(s.s, t = "smr"), d, tg, p)
      [] t = "ign" -> Skip(doc, id)
      [] t \in {"bytes", "bbuf"} -> EBytes
      [] t = "new" -> IF n.k = "al" /\ n.to = 0 THEN EAnchor(id)
                      ELSE IF d = 0 THEN ERec(id) ELSE Rd(doc, id, s.s, d - 1, tg, p)
      [] t = "untag" -> LET c == Rd(doc, id, Content, d, tg, p)
                        IN  IF c.k = "err" THEN c ELSE FirstOf(c, 1, s.ss, FALSE)
      [] t = "itag" -> LET c == Rd(doc, id, [t |-> "inside"], d, tg, p)
                       IN  IF c.k = "err" THEN c ELSE RdInVariant(c.e[1], c.e[2], s.ss)
      [] n.k = "al" /\ t \notin {"ign", "bytes", "bbuf", "new", "ref", "sm", "smr", "untag", "itag"} ->
            IF n.to = 0 THEN EAnchor(id)
            ELSE LET r == Rd(doc, n.to, s, d, FALSE, p)
                 IN  IF t \in {"opt"} THEN r ELSE Fix(r, id, p)
      [] n.k # "al" /\ t = "any" ->
            IF n.k = "void" THEN VNull
            ELSE IF local /\ ~tg
                 THEN LET r == Rd(doc, id, s, d, TRUE, p)
                      IN  IF r.k = "err" THEN Fix(r, id, p) ELSE VTag(TagName(tag), r)
            ELSE IF n.k = "sc" THEN Fix(Lex(ResolveScalar(IF tg THEN "" ELSE tag, n.st, n.v)), id, p)
            ELSE IF n.k = "seq"
                 THEN LET f(ks) == RdSeq(doc, ks, 1, s, d - 1, p)
                          r == aseq(f)
                      IN  IF r.k = "err" THEN r ELSE VSeq(r.e)
            ELSE LET f(ks) == RdValueMap(doc, ks, 1, <<>>, d - 1, p)
                     r == amap(f)
                 IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] n.k # "al" /\ t \in {"raw", "content"} ->
            IF n.k = "void" THEN RNone
            ELSE IF local /\ ~tg
                 THEN IF t = "content" THEN Fix(EMsg, id, p)
                      ELSE LET r == Rd(doc, id, s, d, TRUE, p)
                           IN  IF r.k = "err" THEN Fix(r, id, p) ELSE VTag(TagName(tag), r)
            ELSE IF n.k = "sc"
                 THEN LET r == ResolveScalar(IF tg THEN "" ELSE tag, n.st, n.v)
                      IN  IF r.k = "err" /\ r.c = "range" /\ t = "raw" THEN VInt(IntLit(n.v).val)
                          ELSE Fix(Lex(r), id, p)
            ELSE IF n.k = "seq"
                 THEN LET f(ks) == RdSeq(doc, ks, 1, s, d - 1, p)
                          r == aseq(f)
                      IN  IF r.k = "err" THEN r ELSE VSeq(r.e)
            ELSE LET f(ks) == RdMap(doc, ks, 1, s, s, d - 1, p)
                     r == amap(f)
                 IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] n.k # "al" /\ t = "sos" ->
            IF n.k = "void" \/ (local /\ ~tg) THEN Fix(EMsg, id, p)
            ELSE IF n.k = "sc" THEN LET r == Lex(ResolveScalar(IF tg THEN "" ELSE tag, n.st, n.v))
                                    IN  IF r.k = "str" THEN r ELSE Fix(EMsg, id, p)
            ELSE IF n.k = "map" THEN struct(s)
            ELSE IF d = 0 THEN ERec(id)
            ELSE Fix(EMsg, id, p)
      [] n.k # "al" /\ t = "variant" ->             \* the variant of an internally tagged enum
            IF n.k # "sc" THEN wrong
            ELSE IF VariantNo(n.v) = 0 THEN Fix(EMsg, id, p) ELSE [k |-> "variant", f |-> VariantNo(n.v)]
      [] n.k # "al" /\ t = "inside" ->
            IF n.k \in {"void", "sc"} \/ (local /\ ~tg) THEN Fix(EMsg, id, p)
            ELSE IF n.k = "seq"
                 THEN LET f(ks) == IF ks = <<>> THEN EMsg
                                   ELSE LET v == Rd(doc, ks[1], [t |-> "variant"], d - 1, FALSE, PathSeq(p, 0)) IN
                                        IF v.k = "err" THEN v
                                        ELSE LET r == RdSeq(doc, ks, 2, Content, d - 1, p)
                                             IN  IF r.k = "err" THEN r ELSE ROk(<<v.f, VSeq(r.e)>>)
                      IN  aseq(f)
            ELSE LET f(ks) == RdInside(doc, ks, 1, 0, <<>>, d - 1, p) IN amap(f)
      [] n.k # "al" /\ t = "flat" ->
            LET f(ks) == RdFlat(doc, ks, 1, s.ss, NoField, <<>>, d - 1, p)
                r == amap(f)
            IN  IF r.k = "err" THEN r ELSE [k |-> "struct", e |-> r.e]
      [] n.k # "al" /\ t = "atag" ->
            LET f(ks) == RdAdj(doc, ks, 1, s, [f |-> 0, c |-> NoField, r |-> NoField], d - 1, p) IN amap(f)
      [] n.k # "al" /\ t = "vmap" ->                \* the crate's own Mapping, Sequence,
            LET f(ks) == RdValueMap(doc, ks, 1, <<>>, d - 1, p)
                r == amap(f)
            IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] n.k # "al" /\ t = "vseq" ->
            LET f(ks) == RdSeq(doc, ks, 1, [t |-> "any"], d - 1, p)
                r == aseq(f)
            IN  IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] n.k # "al" /\ t = "vtag" ->                \* TaggedValue: only of a tagged node,
            IF n.k = "void" THEN Fix(EMsg, id, p)
            ELSE IF local /\ ~tg THEN Rd(doc, id, [t |-> "any"], d, FALSE, p)
            ELSE IF coll /\ d = 0 THEN ERec(id)
            ELSE Fix(EMsg, id, p)
      [] n.k # "al" /\ t = "vnum" ->                \* Number: only of a plain number
            IF n.k = "void" THEN Fix(EMsg, id, p)
            ELSE IF local /\ ~tg THEN Fix(EMsg, id, p)
            ELSE IF n.k = "sc" THEN LET r == Lex(ResolveScalar(IF tg THEN "" ELSE tag, n.st, n.v))
                                    IN  IF r.k \in {"int", "float"} THEN r ELSE Fix(EMsg, id, p)
            ELSE IF d = 0 THEN ERec(id)
            ELSE Fix(EMsg, id, p)
      [] n.k # "al" /\ t = "bool" ->
            IF readable("!!bool") THEN Fix(Lex(BoolOf(n.v)), id, p) ELSE wrong
      [] n.k # "al" /\ t \in IntTypes ->
            IF readable("!!int") THEN Fix(Lex(IntOf(n.v, t)), id, p) ELSE wrong
      [] n.k # "al" /\ t \in {"f64", "f32"} ->
            IF readable("!!float") THEN Fix(Lex(FloatOf(n.v)), id, p) ELSE wrong
      [] n.k # "al" /\ t = "str" ->
            IF n.k = "sc" THEN VStr(n.v) ELSE wrong
      [] n.k # "al" /\ t = "char" ->
            IF n.k = "sc" /\ Len(n.v) = 1 THEN VStr(n.v) ELSE wrong
      [] n.k # "al" /\ t = "unit" ->
            IF n.k = "void" THEN Unit
            ELSE IF n.k = "sc" /\ n.st = "p"
                    /\ (IF tag # "" /\ ~tg THEN tag = "!!null" /\ IsNullText(n.v)
                        ELSE n.v = "" \/ IsNullText(n.v))
                 THEN Unit
            ELSE wrong
      [] n.k # "al" /\ t = "opt" ->
            LET some == LET r == Rd(doc, id, s.s, d, tg, p) IN IF r.k = "err" THEN r ELSE RSome(r)
            IN  IF n.k = "void" THEN RNone
                ELSE IF n.k # "sc" \/ n.st # "p" THEN some
                ELSE IF tag # "" /\ ~tg
                     THEN IF tag = "!!null" THEN (IF IsNullText(n.v) THEN RNone ELSE Fix(EMsg, id, p))
                          ELSE some
                ELSE IF n.v = "" \/ IsNullText(n.v) THEN RNone ELSE some
      [] n.k # "al" /\ t = "seq" ->
            LET f(ks) == RdSeq(doc, ks, 1, s.s, d - 1, p)
                r == aseq(f)
            IN  IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] n.k # "al" /\ t = "tup" -> tuple(s.ss)
      [] n.k # "al" /\ t = "map" ->
            LET f(ks) == RdMap(doc, ks, 1, s.ks, s.s, d - 1, p)
                r == amap(f)
            IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] n.k # "al" /\ t = "struct" -> struct(s)
      [] n.k # "al" /\ t = "enum" ->
            IF tg THEN IF n.k = "sc" /\ n.v # "" THEN byname ELSE Fix(EMsg, id, p)
            ELSE IF n.k = "void" THEN EEos
            ELSE IF local THEN bytag
            ELSE IF n.k = "sc" THEN byname
            ELSE Fix(EMsg, id, p)
      [] n.k # "al" /\ t = "take" ->
            LET f(ks) == RdTake(doc, ks, 1, s.n, s.s, d - 1, p)
                r == aseq(f)
            IN  IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] n.k # "al" /\ t = "ask" ->
            LET f(ks) == RdAsk(doc, ks, 1, s.prog, s, d - 1, p)
                r == amap(f)
            IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] n.k # "al" /\ t = "ename" ->       \* the variant alone; its payload is passed over
            LET f == variant(IF n.k = "sc" /\ (tg \/ ~local) THEN n.v ELSE TagName(tag))
                ok == IF f = 0 THEN EMsg ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> Unit]
            IN  IF tg THEN IF n.k = "sc" /\ n.v # "" THEN Fix(ok, id, p) ELSE Fix(EMsg, id, p)
                ELSE IF n.k = "void" THEN EEos
                ELSE IF local THEN IF f = 0 THEN EMsg ELSE LET r == Skip(doc, id) IN IF r.k = "err" THEN r ELSE ok
                ELSE IF n.k = "sc" THEN Fix(ok, id, p)
                ELSE Fix(EMsg, id, p)
      [] n.k # "al" /\ t = "eskip" ->       \* a visitor that takes nothing at all
            IF tg THEN IF n.k = "sc" /\ n.v # "" THEN Unit ELSE Fix(EMsg, id, p)
            ELSE IF n.k = "void" THEN EEos
            ELSE IF local \/ n.k = "sc" THEN Skip(doc, id)
            ELSE Fix(EMsg, id, p)
      [] n.k # "al" /\ t = "senum" ->
            IF n.k = "void" THEN Fix(EMsg, id, p)
            ELSE IF local /\ ~tg THEN Fix(EMsg, id, p)
            ELSE IF n.k = "sc"
                 THEN LET v == Lex(ResolveScalar(IF tg THEN "" ELSE tag, n.st, n.v))
                          f == variant(n.v)
                      IN  IF v.k # "str" \/ f = 0 \/ s.vs[f].k # "unit" THEN Fix(EMsg, id, p)
                          ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> Unit]
            ELSE IF d = 0 THEN ERec(id)
            ELSE IF n.k = "seq" THEN Fix(EMsg, id, p)
            ELSE Fix(single(n.kids), id, p)

Depth == 128
\* Reading the whole document; the target may not overlook a broken rest.
ReadAs(doc, s) == Rd(doc, 1, s, Depth, FALSE, ".")
ReadValue(doc) == ReadAs(doc, [t |-> "any"])

(* ----------------------- reading from a Value -------------------------- *)
Bad == [k |-> "err", c |-> "value", at |-> 0, path |-> ""]

\* What derived types keep of a Value.
RECURSIVE KeepOf(_)
RECURSIVE KeepAll(_, _)
RECURSIVE KeepEntries(_, _)
KeepAll(e, i) == IF i > Len(e) THEN ROk(<<>>)
                 ELSE LET r == KeepOf(e[i])
                          rest == KeepAll(e, i + 1)
                      IN  IF r.k = "err" THEN r ELSE IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
KeepEntries(e, i) == IF i > Len(e) THEN ROk(<<>>)
                     ELSE LET a == KeepOf(e[i][1])
                              b == KeepOf(e[i][2])
                              rest == KeepEntries(e, i + 1)
                          IN  IF a.k = "err" THEN a ELSE IF b.k = "err" THEN b ELSE IF rest.k = "err" THEN rest
                              ELSE ROk(<< <<a, b>> >> \o rest.e)
KeepOf(v) == CASE v.k = "tag" -> Bad
               [] v.k = "seq" -> LET r == KeepAll(v.e, 1) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
               [] v.k = "map" -> LET r == KeepEntries(v.e, 1) IN IF r.k = "err" THEN r ELSE VMap(r.e)
               [] OTHER -> v
AsBad(r) == IF r.k = "err" THEN Bad ELSE r

RECURSIVE FromV(_, _)
RECURSIVE FromVInside(_, _, _, _)
RECURSIVE FromVFlat(_, _, _, _, _)
RECURSIVE FromVAdj(_, _, _, _)
RECURSIVE FromVSeq(_, _, _)
RECURSIVE FromVTup(_, _, _)
RECURSIVE FromVMap(_, _, _, _)
RECURSIVE FromVFields(_, _, _, _)

FromVSeq(e, i, s) ==
    IF i > Len(e) THEN ROk(<<>>)
    ELSE LET r == FromV(e[i], s)
         IN  IF r.k = "err" THEN r
             ELSE LET rest == FromVSeq(e, i + 1, s)
                  IN  IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
FromVTup(e, i, ss) ==
    IF i > Len(ss) THEN IF i > Len(e) THEN ROk(<<>>) ELSE Bad
    ELSE IF i > Len(e) THEN Bad
    ELSE LET r == FromV(e[i], ss[i])
         IN  IF r.k = "err" THEN r
             ELSE LET rest == FromVTup(e, i + 1, ss)
                  IN  IF rest.k = "err" THEN rest ELSE ROk(<<r>> \o rest.e)
FromVMap(e, i, kt, s) ==
    IF i > Len(e) THEN ROk(<<>>)
    ELSE LET a == FromV(e[i][1], kt) IN
         IF a.k = "err" THEN a
         ELSE LET b == FromV(e[i][2], s) IN
              IF b.k = "err" THEN b
              ELSE LET rest == FromVMap(e, i + 1, kt, s)
                   IN  IF rest.k = "err" THEN rest ELSE ROk(<< <<a, b>> >> \o rest.e)
FromVFields(e, i, s, got) ==
    IF i > Len(e) THEN Complete(s.fs, got, 1)
    ELSE LET key == Untag(e[i][1]) IN
         IF key.k # "str" THEN Bad
         ELSE LET f == FieldIdx(s.fs, key.s) IN
              IF f = 0 THEN IF s.deny THEN Bad ELSE FromVFields(e, i + 1, s, got)
              ELSE IF got[f].k # "unset" THEN Bad
              ELSE LET r == FromV(e[i][2], s.fs[f].s)
                   IN  IF r.k = "err" THEN r ELSE FromVFields(e, i + 1, s, [got EXCEPT ![f] = r])

VariantOf(v) == LET u == Untag(v) IN IF u.k = "str" THEN VariantNo(u.s) ELSE 0
FromVInside(e, i, f, acc) ==
    IF i > Len(e) THEN IF f = 0 THEN Bad ELSE ROk(<<f, VMap(acc)>>)
    ELSE LET key == KeepOf(e[i][1])
             r == KeepOf(e[i][2])
         IN  IF key.k = "err" THEN Bad
             ELSE IF key.k = "str" /\ key.s = "t"
             THEN IF VariantOf(e[i][2]) = 0 THEN Bad ELSE FromVInside(e, i + 1, VariantOf(e[i][2]), acc)
             ELSE IF r.k = "err" THEN Bad ELSE FromVInside(e, i + 1, f, Append(acc, <<key, r>>))
FromVFlat(e, i, ss, x, acc) ==
    IF i > Len(e)
    THEN LET a == IF x.k = "unset" THEN Absent(ss[1]) ELSE x
             b == RdRest(acc, ss[2])
         IN  IF a.k = "err" \/ b.k = "err" THEN Bad ELSE [k |-> "struct", e |-> <<a, b>>]
    ELSE LET key == Untag(e[i][1]) IN
         IF key.k # "str" THEN Bad
         ELSE IF key.s = "x"
         THEN IF x.k # "unset" THEN Bad
              ELSE LET r == FromV(e[i][2], ss[1]) IN IF r.k = "err" THEN Bad ELSE FromVFlat(e, i + 1, ss, r, acc)
         ELSE LET r == KeepOf(e[i][2])
              IN  IF r.k = "err" THEN Bad ELSE FromVFlat(e, i + 1, ss, x, Append(acc, <<key, r>>))
FromVAdj(e, i, s, st) ==
    IF i > Len(e) THEN AsBad(AdjDone(st, s.ss))
    ELSE LET key == Untag(e[i][1]) IN
         IF key.k # "str" THEN Bad
         ELSE IF key.s = "t"
         THEN IF st.f # 0 THEN Bad
              ELSE LET v == FromV(e[i][2], AdjUnits(s)) IN
                   IF v.k = "err" THEN Bad
                   ELSE LET f == VariantNo(v.n)
                            r == IF st.c.k = "unset" THEN NoField ELSE FromC(st.c, s.ss[f], TRUE)
                        IN  IF r.k = "err" THEN Bad ELSE FromVAdj(e, i + 1, s, [f |-> f, c |-> st.c, r |-> r])
         ELSE IF key.s = "c"
         THEN IF st.c.k # "unset" \/ st.r.k # "unset" THEN Bad
              ELSE LET r == IF st.f = 0 THEN KeepOf(e[i][2]) ELSE FromV(e[i][2], s.ss[st.f])
                   IN  IF r.k = "err" THEN Bad
                       ELSE FromVAdj(e, i + 1, s, IF st.f = 0 THEN [st EXCEPT !.c = r] ELSE [st EXCEPT !.r = r])
         ELSE FromVAdj(e, i + 1, s, st)

FromV(v, s) ==
    LET u == Untag(v)
        t == s.t
        seqOf(x) == IF x.k = "seq" THEN x.e ELSE <<>>
        tuple(x, ss) == IF x.k \notin {"seq", "null"} THEN Bad
                        ELSE LET r == FromVTup(seqOf(x), 1, ss) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
        struct(x, st) == IF x.k \notin {"map", "null"} THEN Bad
                         ELSE LET r == FromVFields(IF x.k = "map" THEN x.e ELSE <<>>, 1, st,
                                                   [i \in 1..Len(st.fs) |-> NoField])
                              IN  IF r.k = "err" THEN r ELSE [k |-> "struct", e |-> r.e]
        payload(x, vr) == CASE vr.k = "unit"   -> IF x.k = "null" THEN Unit ELSE Bad
                            [] vr.k = "new"    -> FromV(x, vr.s)
                            [] vr.k = "tup"    -> tuple(x, vr.ss)
                            [] vr.k = "struct" -> struct(x, [fs |-> vr.fs, deny |-> FALSE])
    IN
    CASE t = "ref" -> FromV(v, Named(s.name))
      [] t \in {"sm", "smr"} -> FromV(v, SType(s.s, t = "smr"))
      [] t = "senum" ->
            IF v.k = "str"
            THEN LET f == FieldIdx(s.vs, v.s) IN
                 IF f = 0 \/ s.vs[f].k # "unit" THEN Bad
                 ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> Unit]
            ELSE IF v.k # "map" \/ Len(v.e) # 1 THEN Bad
            ELSE LET key == Untag(v.e[1][1])
                     f == IF key.k = "str" THEN FieldIdx(s.vs, key.s) ELSE 0
                 IN  IF f = 0 \/ (f # 0 /\ s.vs[f].k = "unit") THEN Bad
                     ELSE LET r == FromV(v.e[1][2], Payload(s.vs[f]))
                          IN  IF r.k = "err" THEN r ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> r]
      [] t \in {"any", "raw"} -> v
      [] t = "untag" -> LET c == KeepOf(v) IN IF c.k = "err" THEN Bad ELSE AsBad(FirstOf(c, 1, s.ss, FALSE))
      [] t = "itag" -> IF v.k = "map"
                       THEN LET c == FromVInside(v.e, 1, 0, <<>>)
                            IN  IF c.k = "err" THEN Bad ELSE AsBad(RdInVariant(c.e[1], c.e[2], s.ss))
                       ELSE IF v.k # "seq" THEN Bad
                       ELSE IF v.e = <<>> THEN Bad
                       ELSE LET c == KeepAll(v.e, 2)
                            IN  IF VariantOf(v.e[1]) = 0 \/ c.k = "err" THEN Bad
                                ELSE AsBad(RdInVariant(VariantOf(v.e[1]), VSeq(c.e), s.ss))
      [] t \in {"flat", "atag"} ->
            IF u.k \notin {"map", "null"} THEN Bad
            ELSE LET e == IF u.k = "map" THEN u.e ELSE <<>> IN
                 IF t = "flat" THEN FromVFlat(e, 1, s.ss, NoField, <<>>)
                 ELSE FromVAdj(e, 1, s, [f |-> 0, c |-> NoField, r |-> NoField])
      [] t = "ign" -> Unit
      [] t = "sos" -> IF v.k = "str" THEN v ELSE IF v.k = "map" THEN struct(v, s) ELSE Bad
      [] t = "bytes" -> Bad
      [] t = "bbuf" -> IF u.k = "str" THEN u ELSE IF u.k # "seq" THEN Bad
                       ELSE LET r == FromVSeq(u.e, 1, [t |-> "u8"]) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] t = "take" -> IF u.k \notin {"seq", "null"} \/ Len(seqOf(u)) > s.n THEN Bad
                       ELSE LET r == FromVSeq(seqOf(u), 1, s.s) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] t = "ask" -> LET e == IF u.k = "map" THEN u.e ELSE <<>> IN
                      IF u.k \notin {"map", "null"} \/ Len(e) > Len(s.prog) \/ \E i \in 1..Len(e) : i <= Len(s.prog) /\ s.prog[i] = "k" THEN Bad
                      ELSE LET r == FromVMap(e, 1, s.ks, s.s)
                           IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] t = "eskip" -> IF v.k \in {"tag", "str"} THEN Unit ELSE Bad
      [] t = "ename" -> LET f == FieldIdx(s.vs, IF v.k = "tag" THEN v.t ELSE IF v.k = "str" THEN v.s ELSE "") IN
                        IF v.k \notin {"tag", "str"} \/ f = 0 THEN Bad
                        ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> Unit]
      [] t = "vmap" -> IF u.k \notin {"map", "null"} THEN Bad ELSE IF u.k = "map" THEN u ELSE VMap(<<>>)
      [] t = "vseq" -> IF u.k \notin {"seq", "null"} THEN Bad ELSE IF u.k = "seq" THEN u ELSE VSeq(<<>>)
      [] t = "vtag" -> IF v.k = "tag" THEN v ELSE Bad
      [] t = "vnum" -> IF v.k \in {"int", "float"} THEN v ELSE Bad
      [] t = "new" -> FromV(v, s.s)
      [] t = "bool" -> IF u.k = "bool" THEN u ELSE Bad
      [] t \in IntTypes -> IF u.k = "int" THEN IntOf(u.s, t) ELSE Bad
      [] t \in {"f64", "f32"} -> IF u.k = "int" THEN VFloat(u.s) ELSE IF u.k = "float" THEN u ELSE Bad
      [] t = "str" -> IF u.k = "str" THEN u ELSE Bad
      [] t = "char" -> IF u.k = "str" /\ Len(u.s) = 1 THEN u ELSE Bad
      [] t = "unit" -> IF v.k = "null" THEN Unit ELSE Bad
      [] t = "opt" -> IF v.k = "null" THEN RNone
                      ELSE LET r == FromV(v, s.s) IN IF r.k = "err" THEN r ELSE RSome(r)
      [] t = "seq" -> IF u.k \notin {"seq", "null"} THEN Bad
                      ELSE LET r == FromVSeq(seqOf(u), 1, s.s) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] t = "tup" -> tuple(u, s.ss)
      [] t = "map" -> IF u.k \notin {"map", "null"} THEN Bad
                      ELSE LET r == FromVMap(IF u.k = "map" THEN u.e ELSE <<>>, 1, s.ks, s.s)
                           IN  IF r.k = "err" THEN r ELSE VMap(r.e)
      [] t = "struct" -> struct(u, s)
      [] t = "enum" ->
            IF v.k = "tag"
            THEN LET f == FieldIdx(s.vs, v.t) IN
                 IF f = 0 THEN Bad
                 ELSE LET r == payload(v.v, s.vs[f])
                      IN  IF r.k = "err" THEN r ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> r]
            ELSE IF v.k = "str"
            THEN LET f == FieldIdx(s.vs, v.s) IN
                 IF f = 0 \/ s.vs[f].k # "unit" THEN Bad
                 ELSE [k |-> "enum", n |-> s.vs[f].n, v |-> Unit]
            ELSE Bad

\* The parts of a Value as deserializers: they know no hints, so a TaggedValue is
\* an enum to every target and a Number a number.
RECURSIVE FromTagged(_, _)
FromTagged(v, s) ==
    CASE s.t = "ref" -> FromTagged(v, Named(s.name))
      [] s.t \in {"sm", "smr"} -> FromTagged(v, SType(s.s, s.t = "smr"))
      [] s.t \in {"any", "raw", "ign", "enum", "ename", "eskip", "vtag"} -> FromV(v, s)
      [] OTHER -> Bad
RECURSIVE FromNumber(_, _)
FromNumber(v, s) ==
    CASE s.t = "ref" -> FromNumber(v, Named(s.name))
      [] s.t \in {"sm", "smr"} -> FromNumber(v, SType(s.s, s.t = "smr"))
      [] s.t \in {"any", "raw", "untag", "ign", "vnum", "f32", "f64"} \cup IntTypes -> FromV(v, s)
      [] OTHER -> Bad

(* --------------------- text and Value agree (C12) ---------------------- *)
RECURSIVE REq(_, _)
REq(a, b) ==
    IF a.k # b.k THEN a.k = "none" /\ b.k = "null"     \* (an empty stream, raw)
    ELSE CASE a.k \in {"null", "unit", "none", "unset"} -> TRUE
           [] a.k = "bool" -> a.b = b.b
           [] a.k \in {"int", "str"} -> a.s = b.s
           [] a.k = "float" -> TRUE                       \* (same number, maybe another literal)
           [] a.k \in {"seq", "struct"} -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : REq(a.e[i], b.e[i])
           [] a.k = "map" -> Len(a.e) = Len(b.e)
                             /\ \A i \in 1..Len(a.e) : REq(a.e[i][1], b.e[i][1]) /\ REq(a.e[i][2], b.e[i][2])
           [] a.k = "some" -> REq(a.v, b.v)
           [] a.k = "tag" -> a.t = b.t /\ REq(a.v, b.v)
           [] a.k = "enum" -> a.n = b.n /\ REq(a.v, b.v)
           [] OTHER -> FALSE

\* Plain text that carries more than its resolved value.
MoreThanValue(n)  == n.k = "sc" /\ ((n.st = "p" /\ Kind(n.v) # "str") \/ ZeroDigits(n.v) \/ (n.tag # "" /\ ~IsLocal(n.tag)))
\* An empty stream holds nothing, its Value is null: what keeps either tells them apart.
RECURSIVE KeepsVoid(_)
KeepsVoid(s) == s.t \in {"raw", "untag"} \/ (s.t = "new" /\ KeepsVoid(s.s))
Agree(doc, s) ==
    LET v == ReadValue(doc)
        direct == ReadAs(doc, s)
        through == FromV(v, s)
    IN  v.k = "err" \/ (doc[1].k = "void" /\ KeepsVoid(s))
        \/ (direct.k = "err" /\ through.k = "err")
        \/ (direct.k # "err" /\ through.k # "err" /\ REq(direct, through))
        \/ /\ (direct.k = "err") # (through.k = "err")
           /\ \E i \in 1..Len(doc) : MoreThanValue(doc[i])
=============================================================================
