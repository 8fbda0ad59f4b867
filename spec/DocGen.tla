------------------------------- MODULE DocGen -------------------------------
(* Every document over a vocabulary, up to a number of nodes, as behaviours   *)
(* of the loader; each complete one is emitted with what it means.             *)
EXTENDS Doc

CONSTANTS Vocab,      \* scalars: <<text, style, tag>>
          CollTags,   \* tags of collections
          Names,      \* anchor names (with "" for none)
          Unknown,    \* names aliases may use besides defined ones
          MaxNodes, MaxDepth,
          Cycles,     \* whether aliases may point at collections still open
          Use         \* which schemas of the table to read with
VARIABLES nodes, stack, anch

Schemas == TLCEval(ndJsonDeserialize(IOEnv.SCHEMAS))
UseSeq == LET RECURSIVE S(_) S(T) == IF T = {} THEN <<>>
                                     ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o S(T \ {m})
          IN  S(Use \cap 1..Len(Schemas))

Init == /\ stack = <<>> /\ anch = <<>>
        /\ nodes \in {<<>>, << [k |-> "void"] >>}

Open == nodes = <<>> \/ stack # <<>>
Room == Len(nodes) < MaxNodes
Id   == Len(nodes) + 1

Scalar(x, an) ==
    /\ Open /\ Room
    /\ nodes' = AddTo(nodes, stack, [k |-> "sc", v |-> x[1], st |-> x[2], tag |-> x[3], an |-> an])
    /\ anch' = Define(anch, an, Id)
    /\ UNCHANGED stack
Start(kind, tag, an) ==
    /\ Open /\ Room /\ Len(stack) < MaxDepth
    /\ nodes' = AddTo(nodes, stack, [k |-> kind, kids |-> <<>>, tag |-> tag, an |-> an])
    /\ anch' = Define(anch, an, Id)
    /\ stack' = Append(stack, Id)
End ==
    /\ stack # <<>>
    /\ LET n == nodes[stack[Len(stack)]] IN n.k = "map" => Len(n.kids) % 2 = 0
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED <<nodes, anch>>
Alias(name) ==
    /\ stack # <<>> /\ Room
    /\ Cycles \/ \A i \in 1..Len(stack) : stack[i] # Lookup(anch, name)
    /\ nodes' = AddTo(nodes, stack, [k |-> "al", an |-> name, to |-> Lookup(anch, name)])
    /\ UNCHANGED <<stack, anch>>

Next == \/ \E x \in Vocab, an \in Names : Scalar(x, an)
        \/ \E kind \in {"seq", "map"}, tag \in CollTags, an \in Names : Start(kind, tag, an)
        \/ End
        \/ \E name \in (DOMAIN anch) \cup Unknown : Alias(name)
Spec == Init /\ [][Next]_<<nodes, stack, anch>>

Done == stack = <<>> /\ nodes # <<>>

(* --- properties of the model --- *)
Resolution == AliasMeansLast(nodes) /\ LoadDoc(nodes) = nodes
\* Aliases stand for their nodes: reading is the same without them (C06).
Transparent == Done /\ Expandable(nodes) =>
    /\ Same(ReadValue(nodes), ReadValue(Expand(nodes)))
    /\ \A i \in 1..Len(UseSeq) :
          LET s == Schemas[UseSeq[i]] IN Same(ReadAs(nodes, s), ReadAs(Expand(nodes), s))
\* Reading directly and through a Value agree (C12).
ThroughValue == Done => \A i \in 1..Len(UseSeq) : Agree(nodes, Schemas[UseSeq[i]])
\* A cycle or an unknown name is never read successfully (C06, C10).
NoEscape == Done /\ (Unresolved(nodes) \/ Cyclic(nodes)) => ReadValue(nodes).k = "err"
\* Every error points at a node of the document or at none.
Located == Done => LET v == ReadValue(nodes) IN v.k = "err" => v.at \in 0..Len(nodes)

Emit == Done => PrintT("@C" \o ToJson(DocCase(nodes, Schemas, UseSeq)))
=============================================================================
