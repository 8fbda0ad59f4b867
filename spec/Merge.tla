-------------------------------- MODULE Merge --------------------------------
(* The merge key "<<" (https://yaml.org/type/merge.html).                        *)
EXTENDS Values

MergeKey == VStr("<<")
MErr(c)  == [k |-> "err", c |-> c]
Without(e, j) == ShiftOut(e, j)
RECURSIVE Lacking(_, _, _)              \* the entries of b from i on whose keys a lacks, added to a
Lacking(a, b, i) == IF i > Len(b) THEN a
                    ELSE Lacking(IF Find(a, b[i][1]) = 0 THEN Append(a, b[i]) ELSE a, b, i + 1)
RECURSIVE LackingAll(_, _, _)
LackingAll(a, ms, i) == IF i > Len(ms) THEN a ELSE LackingAll(Lacking(a, ms[i].e, 1), ms, i + 1)

RECURSIVE Merged(_)
RECURSIVE MergedAll(_, _)
RECURSIVE MergedVals(_, _)
MergedAll(s, i) == IF i > Len(s) THEN ROk(<<>>)
    ELSE LET a == Merged(s[i]) IN IF a.k = "err" THEN a
         ELSE LET r == MergedAll(s, i + 1) IN IF r.k = "err" THEN r ELSE ROk(<<a>> \o r.e)
MergedVals(e, i) == IF i > Len(e) THEN ROk(<<>>)
    ELSE LET a == Merged(e[i][2]) IN IF a.k = "err" THEN a
         ELSE LET r == MergedVals(e, i + 1) IN IF r.k = "err" THEN r ELSE ROk(<< <<e[i][1], a>> >> \o r.e)
\* What a merge value brings: a sequence of mappings, the first with a key wins.
Sources(m) ==
    CASE m.k = "map" -> ROk(<<m>>)
      [] m.k = "tag" -> MErr("tagged")
      [] m.k = "seq" -> IF \A i \in 1..Len(m.e) : m.e[i].k = "map" THEN ROk(m.e)
                        ELSE LET b == CHOOSE b \in 1..Len(m.e) : m.e[b].k # "map" /\ \A i \in 1..b - 1 : m.e[i].k = "map"
                             IN  MErr(CASE m.e[b].k = "seq" -> "sequence" [] m.e[b].k = "tag" -> "tagged" [] OTHER -> "scalar-element")
      [] OTHER -> MErr("scalar")
\* (u: the order of the entries is not specified.)
Merged(v) ==
    CASE v.k = "seq" -> LET r == MergedAll(v.e, 1) IN IF r.k = "err" THEN r ELSE VSeq(r.e)
      [] v.k = "tag" -> LET r == Merged(v.v) IN IF r.k = "err" THEN r ELSE VTag(v.t, r)
      [] v.k = "map" ->
            LET j == Find(v.e, MergeKey) IN
            IF j = 0 THEN LET r == MergedVals(v.e, 1) IN IF r.k = "err" THEN r ELSE [k |-> "map", e |-> r.e, u |-> "u" \in DOMAIN v]
            ELSE LET m == Merged(v.e[j][2]) IN
                 IF m.k = "err" THEN m
                 ELSE LET s == Sources(m) IN
                      IF s.k = "err" THEN s
                      ELSE LET own == MergedVals(Without(v.e, j), 1) IN
                           IF own.k = "err" THEN own
                           ELSE [k |-> "map", e |-> LackingAll(own.e, s.e, 1), u |-> TRUE]
      [] OTHER -> v

\* All the errors there are to be found (which comes first is not specified).
RECURSIVE Errors(_)
Errors(v) ==
    CASE v.k = "seq" -> UNION {Errors(v.e[i]) : i \in 1..Len(v.e)}
      [] v.k = "tag" -> Errors(v.v)
      [] v.k = "map" -> (UNION {Errors(v.e[i][2]) : i \in 1..Len(v.e)})
                        \cup (LET j == Find(v.e, MergeKey) IN
                              IF j = 0 THEN {} ELSE LET s == Sources(v.e[j][2]) IN IF s.k = "err" THEN {s.c} ELSE {})
      [] OTHER -> {}

(* --- properties of the model (C17) --- *)
RECURSIVE NoMergeKey(_)
NoMergeKey(v) ==
    CASE v.k = "seq" -> \A i \in 1..Len(v.e) : NoMergeKey(v.e[i])
      [] v.k = "tag" -> NoMergeKey(v.v)
      [] v.k = "map" -> Find(v.e, MergeKey) = 0 /\ \A i \in 1..Len(v.e) : NoMergeKey(v.e[i][2])
      [] OTHER -> TRUE
\* r is v with every merge key resolved: own entries first, then the sources in turn.
RECURSIVE Resolves(_, _)
Resolves(v, r) ==
    IF v.k # r.k THEN FALSE
    ELSE CASE v.k = "seq" -> Len(v.e) = Len(r.e) /\ \A i \in 1..Len(v.e) : Resolves(v.e[i], r.e[i])
           [] v.k = "tag" -> v.t = r.t /\ Resolves(v.v, r.v)
           [] v.k = "map" ->
                LET j == Find(v.e, MergeKey)
                    m == IF j = 0 THEN VSeq(<<>>) ELSE v.e[j][2]
                    ms == IF m.k = "map" THEN <<m>> ELSE m.e
                    own == {i \in 1..Len(v.e) : i # j}
                IN  /\ \A i \in own : LET a == Find(r.e, v.e[i][1]) IN a # 0 /\ Resolves(v.e[i][2], r.e[a][2])
                    /\ \A a \in 1..Len(r.e) :
                          \/ \E i \in own : VEq(v.e[i][1], r.e[a][1])
                          \/ LET has(x) == Find(Merged(ms[x]).e, r.e[a][1])
                             IN  \E x \in 1..Len(ms) : has(x) # 0 /\ (\A y \in 1..x - 1 : has(y) = 0)
                                                       /\ VEq(Merged(ms[x]).e[has(x)][2], r.e[a][2])
                    /\ \A x \in 1..Len(ms) : \A b \in 1..Len(Merged(ms[x]).e) : Find(r.e, Merged(ms[x]).e[b][1]) # 0
           [] OTHER -> VEq(v, r)
Rules(v) == LET r == Merged(v) IN
    /\ (r.k = "err") = (Errors(v) # {})
    /\ r.k # "err" => NoMergeKey(r) /\ VEq(Merged(r), r) /\ Resolves(v, r)
MergeCase(v) == [op |-> "merge", v |-> v, r |-> Merged(v), errs |-> Errors(v)]
=============================================================================
