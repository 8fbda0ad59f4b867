------------------------------- MODULE VReadGen ------------------------------
(* Values no document denotes (tags inside tags, keys of any kind) as sources of *)
(* every target type: a Value grows around a leaf, one layer at a time.           *)
EXTENDS Read, Json, IOUtils
CONSTANTS Leaves, Tags, Sides, MaxLayers, Use
VARIABLES v, layers
Schemas == TLCEval(ndJsonDeserialize(IOEnv.SCHEMAS))
UseSeq == TLCEval(LET RECURSIVE S(_) S(T) == IF T = {} THEN <<>>
                                     ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o S(T \ {m})
                  IN  S(Use \cap 1..Len(Schemas)))
VTagged(t, x) == [k |-> "tag", t |-> t, v |-> x]
Differ(a, b) == ~VEq(a, b)
Init == v \in Leaves /\ layers = 0
Next == /\ layers < MaxLayers /\ layers' = layers + 1
        /\ \/ \E t \in Tags : v' = VTagged(t, v)
           \/ v' = VSeq(<<v>>)
           \/ \E s \in Sides : v' \in {VSeq(<<v, s>>), VSeq(<<s, v>>), VMap(<< <<v, s>> >>), VMap(<< <<s, v>> >>)}
           \/ \E s, t \in Sides : /\ Differ(s, t) /\ Differ(v, t)
                                  /\ v' \in {VMap(<< <<s, v>>, <<t, s>> >>), VMap(<< <<t, s>>, <<v, t>> >>)}
Spec == Init /\ [][Next]_<<v, layers>>

(* --- properties of the model --- *)
\* Only what can hold a tag, or names a variant by one, tells a tagged Value from its content.
Keeps == {"any", "raw", "sos", "untag", "itag", "ign", "unit", "opt", "new", "enum", "ename", "eskip", "sm", "smr", "vtag", "vnum", "ref", "bytes"}
TagsSeenThrough == v.k = "tag" => \A i \in 1..Len(UseSeq) :
    LET s == Schemas[UseSeq[i]] IN s.t \in Keeps \/ LET a == FromV(v, s)  b == FromV(Untag(v), s) IN (a.k = "err" /\ b.k = "err") \/ REq(a, b)
Emit == PrintT("@C" \o ToJson([op |-> "vread", val |-> v,
            reads |-> [i \in 1..Len(UseSeq) |-> [s |-> UseSeq[i], v |-> FromV(v, Schemas[UseSeq[i]])]],
            own |-> CASE v.k = "tag" -> [i \in 1..Len(UseSeq) |-> FromTagged(v, Schemas[UseSeq[i]])]
                      [] v.k \in {"int", "float"} -> [i \in 1..Len(UseSeq) |-> FromNumber(v, Schemas[UseSeq[i]])]
                      [] OTHER -> <<>>]))
=============================================================================
