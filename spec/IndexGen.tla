------------------------------ MODULE IndexGen -------------------------------
(* Indexing into Values, and what the accessors say: every history of indexed    *)
(* reads and writes from a pool of Values.                                       *)
EXTENDS Values, Json, IOUtils
CONSTANTS Idx,        \* indices: [k |-> "pos"|"str"|"val", key |-> the key it stands for]
          New,        \* values written
          MaxPath, MaxOps
VARIABLES v, start, hist
vars == <<v, start, hist>>
P == ndJsonDeserialize(IOEnv.INPUTS)

Init == start \in 1..Len(P) /\ v = P[start] /\ hist = <<>>

(* ------------------------------- reading -------------------------------- *)
\* The number of an index by position, from 0 (or one beyond every sequence).
Nat0(i) == IF Len(i.key.s) > 1 THEN 1000 ELSE CHOOSE n \in 0..9 : ToString(n) = i.key.s
GetAt(x, i) ==
    LET u == Untag(x) IN
    IF u.k = "map" THEN (LET j == Find(u.e, i.key) IN IF j = 0 THEN RNone ELSE RSome(u.e[j][2]))
    ELSE IF u.k = "seq" /\ i.k = "pos" THEN (IF Nat0(i) < Len(u.e) THEN RSome(u.e[Nat0(i) + 1]) ELSE RNone)
    ELSE RNone
RECURSIVE GetPath(_, _, _)
GetPath(x, p, i) == IF i > Len(p) THEN RSome(x)
                    ELSE LET r == GetAt(x, p[i]) IN IF r.k = "none" THEN r ELSE GetPath(r.v, p, i + 1)

(* ------------------------------- writing -------------------------------- *)
\* What is done to the place that was reached.
Keep == [f |-> "keep"]  SetTo(x) == [f |-> "set", x |-> x]  Push(x) == [f |-> "push", x |-> x]  Ins(x) == [f |-> "ins", x |-> x]
Apply(f, x) == CASE f.f = "keep" -> x
                 [] f.f = "set"  -> f.x
                 [] f.f = "push" -> IF x.k = "seq" THEN VSeq(Append(x.e, f.x)) ELSE x
                 [] f.f = "ins"  -> IF x.k = "map" THEN VMap(MPut(x.e, VStr("n"), f.x)) ELSE x
\* Outcome of doing f at x[p1][p2]..: whether it panics, and what is left.
Left(ok, x) == [ok |-> ok, v |-> x]
RECURSIVE PutPath(_, _, _, _, _)
\* top: this is the indexed value itself, not what is inside its tags.
PutPath(x, p, i, f, top) ==
    IF i > Len(p) THEN Left(TRUE, Apply(f, x))
    ELSE IF x.k = "tag"
         THEN LET r == PutPath(x.v, p, i, f, FALSE) IN Left(r.ok, VTag(x.t, r.v))
    ELSE IF x.k = "null" /\ top /\ p[i].k # "pos" THEN PutPath(VMap(<<>>), p, i, f, TRUE)
    ELSE IF x.k = "map"
         THEN LET e == IF Find(x.e, p[i].key) = 0 THEN Append(x.e, <<p[i].key, VNull>>) ELSE x.e
                  j == Find(e, p[i].key)
                  r == PutPath(e[j][2], p, i + 1, f, TRUE)
              IN  Left(r.ok, VMap([e EXCEPT ![j] = <<e[j][1], r.v>>]))
    ELSE IF x.k = "seq" /\ p[i].k = "pos" /\ Nat0(p[i]) < Len(x.e)
         THEN LET r == PutPath(x.e[Nat0(p[i]) + 1], p, i + 1, f, TRUE)
              IN  Left(r.ok, VSeq([x.e EXCEPT ![Nat0(p[i]) + 1] = r.v]))
    ELSE Left(FALSE, x)
\* Something done to what is inside the tags.
RECURSIVE Inside(_, _)
Inside(x, f) == IF x.k = "tag" THEN VTag(x.t, Inside(x.v, f)) ELSE Apply(f, x)

Paths == UNION {[1..n -> 1..Len(Idx)] : n \in 1..MaxPath}
PathOf(f) == [i \in DOMAIN f |-> Idx[f[i]]]

\* The accessors.
Acc(x) == LET u == Untag(x) IN
    [u |-> u,
     i64 |-> u.k = "int" /\ InRange(IntLit(u.s).val, "i64"), u64 |-> u.k = "int" /\ First(u.s) # "-"]

Do(a, p, x, ret, after) ==
    /\ Len(hist) < MaxOps
    /\ v' = after
    /\ hist' = Append(hist, [a |-> a, p |-> p, x |-> x, ret |-> ret, after |-> after, acc |-> Acc(after)])
    /\ UNCHANGED start

Reads(p) ==
    LET g == GetPath(v, p, 1)
    IN  \/ Do("get", p, VNull, g, v)
        \/ Do("index", p, VNull, IF g.k = "none" THEN VNull ELSE g.v, v)
        \/ LET r == PutPath(v, p, 1, Keep, TRUE) IN Do("touch", p, VNull, VBool(r.ok), r.v)
Writes(p, x) ==
    LET r == PutPath(v, p, 1, SetTo(x), TRUE)
        g == GetPath(v, p, 1)
    IN  \/ Do("set", p, x, VBool(r.ok), r.v)
        \/ Do("get_mut", p, x, VBool(g.k # "none"), IF g.k = "none" THEN v ELSE r.v)
Accessed(x) ==
        \/ Do("as_sequence_mut", <<>>, x, VBool(Untag(v).k = "seq"), Inside(v, Push(x)))
        \/ Do("as_mapping_mut", <<>>, x, VBool(Untag(v).k = "map"), Inside(v, Ins(x)))
Next == \/ \E f \in Paths : Reads(PathOf(f))
        \/ \E f \in Paths, x \in 1..Len(New) : Writes(PathOf(f), New[x])
        \/ \E x \in 1..Len(New) : Accessed(New[x])
Spec == Init /\ [][Next]_vars

(* --- properties of the model --- *)
Last == hist[Len(hist)]
Before == IF Len(hist) = 1 THEN P[start] ELSE hist[Len(hist) - 1].after
\* What was written is read back; nothing else moves or changes.
WrittenIsRead == hist # <<>> /\ Last.a = "set" /\ Last.ret.b => GetPath(v, Last.p, 1) = RSome(Last.x)
\* A failed write at the first index changes nothing.
PanicKeeps == hist # <<>> /\ Last.a \in {"set", "touch"} /\ Len(Last.p) = 1 /\ ~Last.ret.b => v = Before
\* Every other path of one index leads where it led.
OthersKept == hist # <<>> /\ Last.a \in {"set", "get_mut", "touch"} =>
    \A i \in 1..Len(Idx) :
        (Idx[i] # Last.p[1] /\ ~VEq(Idx[i].key, Last.p[1].key)) => GetAt(v, Idx[i]) = GetAt(Before, Idx[i])
\* Reading by index never changes anything, and agrees with get.
ReadsKeep == hist # <<>> /\ Last.a \in {"get", "index"} => v = Before
\* A successful get means that writing there works, and leaves the same keys.
GetThenSet == hist # <<>> /\ Last.a = "get_mut" /\ Last.ret.b =>
    LET a == Untag(v)  b == Untag(Before) IN
    a.k = b.k /\ Len(a.e) = Len(b.e) /\ (a.k = "map" => \A i \in 1..Len(a.e) : a.e[i][1] = b.e[i][1])
Emit == Len(hist) = MaxOps => PrintT("@C" \o ToJson([op |-> "index", start |-> P[start], acc |-> Acc(P[start]), hist |-> hist]))
=============================================================================
