-------------------------------- MODULE Utf8 --------------------------------
(* Which byte strings are text, and which text YAML allows as written.        *)
EXTENDS Naturals, Sequences

\* Length of the sequence a first byte announces, 0 when none may start so.
Width(b) == CASE b < 128 -> 1
              [] b >= 194 /\ b <= 223 -> 2
              [] b >= 224 /\ b <= 239 -> 3
              [] b >= 240 /\ b <= 244 -> 4
              [] OTHER -> 0
\* Second bytes are restricted to keep encodings shortest, below 110000 (hex)
\* and outside the surrogates.
Second(b, c) == CASE b = 224 -> c >= 160 /\ c <= 191
                  [] b = 237 -> c >= 128 /\ c <= 159
                  [] b = 240 -> c >= 144 /\ c <= 191
                  [] b = 244 -> c >= 128 /\ c <= 143
                  [] OTHER -> c >= 128 /\ c <= 191
Later(c) == c >= 128 /\ c <= 191

\* Code points of the bytes from i on; <<-1>>-free only when all is valid.
Bad == [ok |-> FALSE, cps |-> <<>>]
RECURSIVE Decode(_, _)
Decode(bs, i) ==
    IF i > Len(bs) THEN [ok |-> TRUE, cps |-> <<>>]
    ELSE LET w == Width(bs[i]) IN
         IF w = 0 \/ i + w - 1 > Len(bs) THEN Bad
         ELSE LET good == /\ w >= 2 => Second(bs[i], bs[i + 1])
                          /\ \A j \in 2..(w - 1) : Later(bs[i + j])
                  cp == CASE w = 1 -> bs[i]
                          [] w = 2 -> (bs[i] - 192) * 64 + (bs[i + 1] - 128)
                          [] w = 3 -> (bs[i] - 224) * 4096 + (bs[i + 1] - 128) * 64 + (bs[i + 2] - 128)
                          [] w = 4 -> (bs[i] - 240) * 262144 + (bs[i + 1] - 128) * 4096
                                      + (bs[i + 2] - 128) * 64 + (bs[i + 3] - 128)
              IN  IF ~good THEN Bad
                  ELSE LET rest == Decode(bs, i + w)
                       IN  IF rest.ok THEN [ok |-> TRUE, cps |-> <<cp>> \o rest.cps] ELSE Bad

Allowed(cp) == \/ cp \in {9, 10, 13, 133}
               \/ cp >= 32 /\ cp <= 126
               \/ cp >= 160 /\ cp <= 55295
               \/ cp >= 57344 /\ cp <= 65533
               \/ cp >= 65536 /\ cp <= 1114111
IsBreak(cp) == cp \in {10, 13, 133, 8232, 8233}
=============================================================================
