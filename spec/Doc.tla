--------------------------------- MODULE Doc ---------------------------------
(* Building documents event by event, as the loader does: a stack of open      *)
(* collections and a table from anchor names to the node that carried the name *)
(* last.  The node table it builds is what module Read reads.                   *)
EXTENDS Read, Json, IOUtils, FiniteSets

NoAnchor == ""
\* What the loader looks an alias up in: name -> node, 0 when undefined.
Lookup(anch, name) == IF name \in DOMAIN anch THEN anch[name] ELSE 0
Define(anch, name, id) == IF name = NoAnchor THEN anch ELSE (name :> id) @@ anch

\* The event adds node n below the innermost open collection.
AddTo(nodes, stack, n) ==
    LET id == Len(nodes) + 1
        ns == Append(nodes, n)
    IN  IF stack = <<>> THEN ns
        ELSE [ns EXCEPT ![stack[Len(stack)]].kids = Append(@, id)]

(* ------------------- documents without their aliases ------------------- *)
\* Nodes reachable from id through kids and aliases, to find cycles.
RECURSIVE Inline(_, _, _)
RECURSIVE InlineKids(_, _, _, _)
\* The subtree at id as a table whose first node gets number o + 1.
Inline(doc, id, o) ==
    LET n == doc[id] IN
    CASE n.k = "al" -> Inline(doc, n.to, o)
      [] n.k \in {"sc", "void"} -> << n >>
      [] n.k \in {"seq", "map"} ->
           LET r == InlineKids(doc, n.kids, 1, o + 1)
           IN  << [n EXCEPT !.kids = r.ids] >> \o r.nodes
InlineKids(doc, ks, i, o) ==
    IF i > Len(ks) THEN [ids |-> <<>>, nodes |-> <<>>]
    ELSE LET a == Inline(doc, ks[i], o)
             b == InlineKids(doc, ks, i + 1, o + Len(a))
         IN  [ids |-> <<o + 1>> \o b.ids, nodes |-> a \o b.nodes]
Expand(doc) == Inline(doc, 1, 0)

HasAlias(doc) == \E i \in 1..Len(doc) : doc[i].k = "al"
\* No unknown alias and none to a collection that is still open (which contains it).
RECURSIVE Below(_, _)
Below(doc, id) == {id} \cup UNION {Below(doc, Kids(doc[id])[i]) : i \in 1..Len(Kids(doc[id]))}
Unresolved(doc) == \E i \in 1..Len(doc) : doc[i].k = "al" /\ doc[i].to = 0
Cyclic(doc) == \E i \in 1..Len(doc) : doc[i].k = "al" /\ doc[i].to # 0 /\ i \in Below(doc, doc[i].to)
Expandable(doc) == HasAlias(doc) /\ ~Unresolved(doc) /\ ~Cyclic(doc)

(* ------------------------------ the loader ----------------------------- *)
\* An alias stands for the nearest earlier node with its name (C06), stated
\* without the table.
LastBefore(doc, i, name) ==
    LET S == {j \in 1..(i - 1) : doc[j].k \in {"sc", "seq", "map"} /\ doc[j].an = name}
    IN  IF S = {} THEN 0 ELSE CHOOSE m \in S : \A j \in S : j <= m
AliasMeansLast(doc) == \A i \in 1..Len(doc) : doc[i].k = "al" => doc[i].to = LastBefore(doc, i, doc[i].an)

\* Resolves a recorded document's aliases as the loader does.
RECURSIVE Load(_, _, _)
Load(doc, i, anch) ==
    IF i > Len(doc) THEN doc
    ELSE IF doc[i].k = "al" THEN Load([doc EXCEPT ![i].to = Lookup(anch, doc[i].an)], i + 1, anch)
    ELSE IF doc[i].k = "void" THEN Load(doc, i + 1, anch)
    ELSE Load(doc, i + 1, Define(anch, doc[i].an, i))
LoadDoc(doc) == Load(doc, 1, <<>>)

(* ------------------------- what a document means ------------------------ *)
Same(a, b) == (a.k = "err" /\ b.k = "err") \/ (a.k # "err" /\ b.k # "err" /\ REq(a, b))

Reads(doc, table, idx) ==
    LET v == ReadValue(doc) IN
    [i \in 1..Len(idx) |->
        LET r == ReadAs(doc, table[idx[i]])
        IN  [s |-> idx[i], r |-> r,
             v |-> IF v.k = "err" THEN v ELSE FromV(v, table[idx[i]])]]

DocCase(doc, table, idx) ==
    [op |-> "doc", nodes |-> doc, any |-> ReadValue(doc),
     reads |-> Reads(doc, table, idx),
     expand |-> IF Expandable(doc) THEN ReadValue(Expand(doc)) ELSE "no"]
\* The same with the types in the case itself.
DocCaseOf(doc, types) ==
    LET c == DocCase(doc, types, [i \in 1..Len(types) |-> i])
    IN  [c EXCEPT !.reads = [i \in 1..Len(types) |-> [@[i] EXCEPT !.s = types[i]]]]
=============================================================================
