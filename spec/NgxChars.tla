------------------------------ MODULE NgxChars ------------------------------
(* Characters and strings.  A text is a TLC string; Ch(s, i) is its i-th       *)
(* character as a string of length one.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Functions, Json, TLC

Ch(s, i) == SubSeq(s, i, i)

\* {"space": [...], "ascii": [...]}: Unicode whitespace (the part TLA+ source
\* text cannot spell) and the printable ASCII characters in code point order.
CharData == JsonDeserialize("data/chars.json")
SpaceSet == {CharData.space[i] : i \in 1 .. Len(CharData.space)}

IsSpace(c) == c \in SpaceSet
IsPunct(c) == c \in {"{", "}", ";"}
EOL == "\n"
CR  == "\r"
BS  == "\\"
DQ  == "\""
SQ  == "'"

HasSub(s, t) == \E i \in 1 .. Len(s) - Len(t) + 1 : SubSeq(s, i, i + Len(t) - 1) = t
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Last1(s)  == IF s = "" THEN "" ELSE Ch(s, Len(s))
First1(s) == IF s = "" THEN "" ELSE Ch(s, 1)
DropFirst(s, n) == SubSeq(s, n + 1, Len(s))
DropLast(s, n)  == SubSeq(s, 1, Len(s) - n)

\* fold op(acc, c) over the characters of s, from the left
FoldChars(op(_, _), base, s) ==
    FoldLeft(LAMBDA acc, i : op(acc, Ch(s, i)), base, [i \in 1 .. Len(s) |-> i])

HasChar(s, c)      == \E i \in 1 .. Len(s) : Ch(s, i) = c
HasAnyOf(s, C)     == \E i \in 1 .. Len(s) : Ch(s, i) \in C
CountChar(s, c)    == Cardinality({i \in 1 .. Len(s) : Ch(s, i) = c})
IndexOf(s, c)      == IF HasChar(s, c) THEN CHOOSE i \in 1 .. Len(s) : Ch(s, i) = c /\ \A j \in 1 .. i - 1 : Ch(s, j) # c ELSE 0

RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # "" /\ IsSpace(Ch(s, 1)) THEN TrimLeft(DropFirst(s, 1)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ IsSpace(Ch(s, Len(s))) THEN TrimRight(DropLast(s, 1)) ELSE s
\* s ends in a backslash that is not itself escaped
RECURSIVE EndsInEscape(_)
EndsInEscape(s) == s # "" /\ Ch(s, Len(s)) = BS /\ ~EndsInEscape(DropLast(s, 1))
\* without the whitespace at its end, unless that is escaped
RECURSIVE TrimUnescaped(_)
TrimUnescaped(s) == IF s # "" /\ IsSpace(Ch(s, Len(s))) /\ ~EndsInEscape(DropLast(s, 1)) THEN TrimUnescaped(DropLast(s, 1)) ELSE s

\* replace every character c of s by rep
ReplaceChar(s, c, rep) == FoldChars(LAMBDA a, x : a \o (IF x = c THEN rep ELSE x), "", s)
RemoveChar(s, c) == ReplaceChar(s, c, "")

\* split s at every character c: a non-empty sequence of strings
SplitAt(s, c) ==
    LET r == FoldChars(LAMBDA a, x : IF x = c THEN [parts |-> Append(a.parts, a.cur), cur |-> ""]
                                     ELSE [a EXCEPT !.cur = @ \o x],
                       [parts |-> <<>>, cur |-> ""], s)
    IN Append(r.parts, r.cur)

\* join a sequence of strings with a separator
JoinWith(ss, sep) ==
    FoldLeft(LAMBDA a, i : IF i = 1 THEN ss[1] ELSE a \o sep \o ss[i], "", [i \in 1 .. Len(ss) |-> i])

RepeatStr(s, n) == FoldLeft(LAMBDA a, i : a \o s, "", [i \in 1 .. n |-> i])

\* byte order of ASCII strings (used to sort file names)
Ord == [c \in {CharData.ascii[i] : i \in 1 .. Len(CharData.ascii)} |->
            CHOOSE i \in 1 .. Len(CharData.ascii) : CharData.ascii[i] = c]
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
    IF b = "" THEN FALSE
    ELSE IF a = "" THEN TRUE
    ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(DropFirst(a, 1), DropFirst(b, 1))
    ELSE Ord[Ch(a, 1)] < Ord[Ch(b, 1)]
SortStrs(ss) == SortSeq(ss, LAMBDA a, b : StrLess(a, b))

Lower1(c) ==
    LET U == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        L == "abcdefghijklmnopqrstuvwxyz"
    IN IF HasChar(U, c) THEN Ch(L, IndexOf(U, c)) ELSE c
ToLowerStr(s) == FoldChars(LAMBDA a, x : a \o Lower1(x), "", s)
=============================================================================
