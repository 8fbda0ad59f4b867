------------------------------- MODULE BorrowGen -----------------------------
(* Borrowed strings.  A scalar is written token by token; the scanner turns the *)
(* source of each token into content.  Content that is the source itself can be *)
(* lent out; content that had to be made (escapes, folding) cannot.             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxToks
(* A token: src as written, txt what it stands for, cls: "c" a character,       *)
(* "b" a blank, "e" an escape, "f" a line break that folds.                     *)
T(s, x, c) == [src |-> s, txt |-> x, cls |-> c]
Toks(style) ==
    CASE style = "p" -> {T("a", "a", "c"), T("é", "é", "c"), T("'", "'", "c"), T("\\", "\\", "c"), T("字", "字", "c"), T(" ", " ", "b"), T("\n   ", " ", "f"), T("\n\n   ", "\n", "f")}
      [] style = "s" -> {T("a", "a", "c"), T("é", "é", "c"), T("\"", "\"", "c"), T("\\", "\\", "c"), T("#", "#", "c"), T(" ", " ", "b"), T("''", "'", "e"), T("\t", "\t", "b"), T("\n   ", " ", "f"), T("\n", " ", "f"), T("\r\n", " ", "f"), T("\r", " ", "f"), T("\n\n", "\n", "f"), T("\n\n   ", "\n", "f")}
      [] style = "d" -> {T("a", "a", "c"), T("字", "字", "c"), T("'", "'", "c"), T(" ", " ", "b"), T("\\n", "\n", "e"), T("\\x41", "A", "e"), T("\\\\", "\\", "e"),
                         T("\\\"", "\"", "e"), T("\\u00e9", "é", "e"), T("\\/", "/", "e"), T("\t", "\t", "b"), T("\n   ", " ", "f"), T("\n", " ", "f"), T("\r", " ", "f"), T("\\\n", "", "e"), T("\\\n   ", "", "e")}
      [] OTHER       -> {T("a", "a", "c"), T("é", "é", "c")}
Joins == {"\\\n   ", "\\\n"}            \* escaped line breaks
VARIABLES style, toks, done

\* Blanks next to a fold or at the ends of plain text would be trimmed.
FitsEnd(st, ts) == LET n == Len(ts) IN
    n > 0 => /\ st = "p" => ts[n].cls = "c"
             /\ ts[n].cls # "f"
Fits(st, ts, t) ==
    /\ ts = <<>> => /\ t.cls # "f"
                    /\ st = "p" => t.cls = "c" /\ t.src # "'"
    /\ ts # <<>> /\ t.cls = "f" => ts[Len(ts)].cls = "c"
    /\ ts # <<>> /\ ts[Len(ts)].cls = "f" => t.cls = "c"
    /\ ts # <<>> /\ t.src \in Joins => ts[Len(ts)].cls = "c"
    /\ ts # <<>> /\ ts[Len(ts)].src \in Joins => t.cls = "c"

RECURSIVE Cat(_, _, _)
Cat(ts, i, f) == IF i > Len(ts) THEN "" ELSE ts[i][f] \o Cat(ts, i + 1, f)
Source(ts)  == Cat(ts, 1, "src")
Content(ts) == Cat(ts, 1, "txt")

\* The scanner: content made so far, and whether it still is the source so far.
RECURSIVE Scan(_, _, _)
Scan(ts, i, s) ==
    IF i > Len(ts) THEN s
    ELSE Scan(ts, i + 1, [txt |-> s.txt \o ts[i].txt, same |-> s.same /\ ts[i].cls \in {"c", "b"}])
Scanned(ts) == Scan(ts, 1, [txt |-> "", same |-> TRUE])

RECURSIVE Occurs(_, _, _)
Occurs(x, y, i) == IF i + Len(x) - 1 > Len(y) THEN FALSE ELSE SubSeq(y, i, i + Len(x) - 1) = x \/ Occurs(x, y, i + 1)

\* "must" be lent, "may" be, "never" can be.
Verdict(st, ts) ==
    IF st \in {"l", "f"} THEN "never"
    ELSE IF Scanned(ts).same THEN "must"
    ELSE IF Occurs(Content(ts), Source(ts), 1) THEN "may" ELSE "never"

\* In a Value: a borrowed one has the content, whatever the source was.
ByRef == "must"
ByVal == "never"

Init == style \in {"p", "s", "d", "l", "f"} /\ toks = <<>> /\ done = FALSE
Add  == /\ ~done /\ Len(toks) < MaxToks
        /\ \E t \in Toks(style) : Fits(style, toks, t) /\ toks' = Append(toks, t)
        /\ UNCHANGED <<style, done>>
Stop == /\ ~done /\ FitsEnd(style, toks) /\ (style \in {"p", "l", "f"} => toks # <<>>)
        /\ done' = TRUE /\ UNCHANGED <<style, toks>>
Next == Add \/ Stop
Spec == Init /\ [][Next]_<<style, toks, done>>

(* --- properties of the model --- *)
\* Text may be lent exactly when nothing had to be made: then it is the source.
LentIsSource == done /\ Verdict(style, toks) = "must" => Source(toks) = Content(toks)
MadeIsNot    == done /\ ~Scanned(toks).same => Source(toks) # Content(toks)
ScansContent == Scanned(toks).txt = Content(toks)

Emit == done => PrintT("@C" \o ToJson([op |-> "borrow", style |-> style, src |-> Source(toks), txt |-> Content(toks),
                                       lines |-> \E i \in 1..Len(toks) : toks[i].cls = "f" \/ toks[i].src \in Joins,
                                       lend |-> Verdict(style, toks), byref |-> ByRef, byval |-> ByVal]))
=============================================================================
