------------------------------ MODULE FanJudge ------------------------------
(* Documents whose aliases multiply: how often reading follows an alias, and     *)
(* whether that is within what the number of events allows.                      *)
EXTENDS Judge, Doc
Loaded == LoadDoc(Inputs[at].nodes)
Types  == Inputs[at].reads

\* Events of the document: one per scalar or alias, two per collection.
RECURSIVE Count(_, _)
Count(doc, i) == IF i > Len(doc) THEN 0 ELSE (IF doc[i].k \in {"seq", "map"} THEN 2 ELSE 1) + Count(doc, i + 1)

\* For every node: how often an alias is followed by reading it as a Value, and
\* how many scalars are read.  A node's kids are behind it, an alias is behind all
\* of the node it stands for: the table fills as the events go by.
None == [al |-> 0, sc |-> 0]
Sum2(x, y) == [al |-> x.al + y.al, sc |-> x.sc + y.sc]
RECURSIVE Walk(_, _, _)
RECURSIVE WalkAll(_, _, _, _, _)
WalkAll(doc, ks, i, tab, acc) ==
    IF i > Len(ks) THEN [tab |-> tab, acc |-> acc]
    ELSE LET t == Walk(doc, ks[i], tab) IN WalkAll(doc, ks, i + 1, t, Sum2(acc, t[ks[i]]))
Walk(doc, id, tab) ==
    LET n == doc[id] IN
    CASE n.k = "al" -> [tab EXCEPT ![id] = Sum2([al |-> 1, sc |-> 0], tab[n.to])]
      [] n.k = "sc" -> [tab EXCEPT ![id] = [al |-> 0, sc |-> 1]]
      [] OTHER -> LET w == WalkAll(doc, n.kids, 1, tab, None) IN [w.tab EXCEPT ![id] = w.acc]
\* The same for node id read as type s.  Skipping follows none.
RECURSIVE Follow(_, _, _, _)
RECURSIVE FollowAll(_, _, _, _, _, _)
\* Kids from the i-th on.
FollowAll(doc, ks, i, s, tab, acc) ==
    IF i > Len(ks) THEN acc
    ELSE LET f == Follow(doc, ks[i], s, tab) IN FollowAll(doc, ks, i + 1, s, tab, Sum2(acc, f))
Follow(doc, id, s, tab) ==
    LET n == doc[id] IN
    IF s.t = "any" THEN tab[id]
    ELSE IF s.t = "ign" THEN None
    ELSE IF n.k = "al" THEN Sum2([al |-> 1, sc |-> 0], Follow(doc, n.to, s, tab))
    ELSE IF s.t \in {"opt", "new"} THEN Follow(doc, id, s.s, tab)
    ELSE FollowAll(doc, n.kids, 1, s.s, tab, None)
Case(doc) ==
    LET tab == Walk(doc, 1, [i \in 1..Len(doc) |-> None])
        ev  == Count(doc, 1)
    IN  [op |-> "fan", nodes |-> doc, reads |->
          [i \in 1..Len(Types) |-> LET f == Follow(doc, 1, Types[i], tab) IN
            [s |-> Types[i], ok |-> f.al <= 100 * ev, al |-> f.al, ev |-> ev, sc |-> f.sc]]]
Emit == PrintT("@C" \o ToJson(Case(Loaded)))
=============================================================================
