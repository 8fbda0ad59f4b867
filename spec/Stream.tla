------------------------------- MODULE Stream -------------------------------
(* A stream of documents and what its documents are alone.  A piece of a       *)
(* stream is [kind |-> "ok", nodes] (aliases not yet resolved; a name nobody    *)
(* defined makes it fail) or [kind |-> "broken", text] (not YAML).              *)
EXTENDS Doc

\* An error that has no counterpart among the errors about a single document.
EMany  == [k |-> "err", c |-> "many", at |-> 0, path |-> ""]
EIo    == [k |-> "err", c |-> "io", at |-> 0, path |-> ""]
EParse == [k |-> "err", c |-> "parse", at |-> 0, path |-> ""]
Void   == << [k |-> "void"] >>

Alone(piece, s) == IF piece.kind = "broken" THEN EParse ELSE ReadAs(LoadDoc(piece.nodes), s)

\* The documents a stream consists of: nothing after a broken piece counts,
\* and no piece at all is one void document.
RECURSIVE Prefix(_, _)
Prefix(ps, i) == IF i > Len(ps) THEN <<>>
                 ELSE IF ps[i].kind = "broken" THEN << ps[i] >>
                 ELSE << ps[i] >> \o Prefix(ps, i + 1)
Documents(ps) == IF ps = <<>> THEN << [kind |-> "ok", nodes |-> Void] >> ELSE Prefix(ps, 1)

\* Types whose values are put together only after the document was read.
RECURSIVE Outside(_)
Outside(s) == s.t \in {"untag", "itag"} \/ (s.t \in {"sm", "smr"} /\ Outside(s.s))
\* Reading the stream as a single document.  (What such a type finds wrong, at
\* no node, comes after the question whether the document is the only one.)
Single(ps, s) ==
    LET ds == Documents(ps)
        r  == Alone(ds[1], s)
    IN  IF Len(ds) = 1 \/ (r.k = "err" /\ ~(Outside(s) /\ r.c = "msg" /\ r.at = 0)) THEN r ELSE EMany

(* ------------------------------ the iterator ----------------------------- *)
(* it.st: "new" nothing read yet, "open" reading, "fail" the source failed;     *)
(* it.pos: how many documents were handed out.                                  *)
NewIter == [st |-> "new", pos |-> 0]
\* What next does: [it, item] with item 0 for the end, a document's number, or
\* -1 for an item that carries the source's error.
Step(it, ps, fails) ==
    LET ds == Documents(ps) IN
    IF it.st = "fail" \/ (it.st = "new" /\ fails) THEN [it |-> [it EXCEPT !.st = "fail"], item |-> -1]
    ELSE IF it.pos >= 1 /\ ds[it.pos].kind = "broken" THEN [it |-> it, item |-> it.pos]   \* fails for ever
    ELSE IF it.pos = Len(ds) THEN [it |-> [it EXCEPT !.st = "open"], item |-> 0]
    ELSE [it |-> [st |-> "open", pos |-> it.pos + 1], item |-> it.pos + 1]
\* Reading one of the items, or what is left of the deserializer itself.
ReadItem(ps, item, s) == IF item = -1 THEN EIo ELSE Alone(Documents(ps)[item], s)
ReadRest(it, ps, fails, s) ==
    IF it.st = "open" THEN EMany
    ELSE IF it.st = "fail" \/ fails THEN EIo
    ELSE Single(ps, s)
=============================================================================
