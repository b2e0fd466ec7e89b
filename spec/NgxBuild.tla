------------------------------- MODULE NgxBuild -------------------------------
(* Building: quoting of words and layout of a tree as text.                    *)
EXTENDS NgxCombine

-------------------------------------------------------------------------------
\* Quoting.  The word with its escapes and variable starts made explicit
EscapeState == [out |-> "", pc |-> "", cc |-> ""]
EscapeStep(a, c) ==
    IF a.pc = BS \/ (a.pc = "$" /\ c = "{")
    THEN [out |-> a.out \o a.pc \o c, pc |-> "", cc |-> c]
    ELSE [out |-> a.out \o (IF a.pc = "$" THEN "$" ELSE "") \o (IF c \in {BS, "$"} THEN "" ELSE c), pc |-> c, cc |-> c]
Escaped(s) ==
    IF ~HasAnyOf(s, {"{", "}", "$", ";", BS}) THEN s
    ELSE LET r == FoldChars(EscapeStep, EscapeState, s)
         IN r.out \o (IF r.cc \in {BS, "$"} THEN r.cc ELSE "")

\* must a word be quoted to be read back as one word?
QuoteStep(a, c) ==
    IF a.yes THEN a
    ELSE IF a.prev = BS THEN [a EXCEPT !.prev = "", !.ch = c]
    ELSE IF IsSpace(c) \/ c \in {"{", "}", ";", DQ, SQ} THEN [a EXCEPT !.yes = TRUE]
    ELSE [a EXCEPT !.prev = c, !.ch = c]
NeedsQuote(s) ==
    LET e == Escaped(s) IN
    IF s = "" \/ e = "" THEN TRUE
    ELSE IF IsSpace(Ch(e, 1)) \/ Ch(e, 1) \in {"{", "}", ";", DQ, SQ, "#"} \/ HasPrefix(e, "${") THEN TRUE
    ELSE LET r == FoldChars(QuoteStep, [yes |-> FALSE, prev |-> Ch(e, 1), ch |-> Ch(e, 1)], DropFirst(e, 1))
         IN r.yes \/ r.ch = BS \/ r.ch = "$"

\* does c stand behind a backslash that is not itself escaped?
HasEscaped(s, c) ==
    FoldChars(LAMBDA a, x : [hit |-> a.hit \/ (a.esc /\ x = c), esc |-> x = BS /\ ~a.esc],
              [hit |-> FALSE, esc |-> FALSE], s).hit

QuoteWith(s, q) ==
    LET r == FoldChars(LAMBDA a, x :
                [out |-> a.out \o (IF x = CR THEN "\\r" ELSE IF x = q /\ ~a.esc THEN BS \o q ELSE x),
                 esc |-> x = BS /\ ~a.esc], [out |-> q, esc |-> FALSE], s)
    IN r.out \o q

Quoted(s) ==
    IF ~HasChar(s, DQ) THEN QuoteWith(s, DQ)
    ELSE IF ~HasEscaped(s, SQ) THEN QuoteWith(s, SQ)
    ELSE IF HasEscaped(s, DQ) THEN s
    ELSE QuoteWith(s, DQ)

Enquote(s) == IF NeedsQuote(s) THEN Quoted(s) ELSE s

\* a word nothing is special about
IsPlain(s) == s # "" /\ ~\E i \in 1 .. Len(s) : IsSpace(Ch(s, i)) \/ Ch(s, i) \in {"{", "}", ";", DQ, SQ, BS, "$", "#", CR}

-------------------------------------------------------------------------------
\* Layout.  b: build options [indent, tabs, header, lua, ext]; ext: directives with
\* a registered builder (the tests' writes [[name|args]], for some names amid white space)
HeaderText == "# This config was built from JSON using NGINX crossplane.\n"
           \o "# If you encounter any bugs please report them here:\n"
           \o "# https://github.com/nginxinc/crossplane/issues\n\n"

Margin(b, depth) == IF b.tabs THEN RepeatStr("\t", depth)
                    ELSE RepeatStr(" ", depth * (IF b.indent = 0 THEN 4 ELSE b.indent))

LuaText(x) ==
    IF x.d = "set_by_lua_block" /\ Len(x.a) >= 2 THEN x.d \o " " \o x.a[1] \o " {" \o x.a[2] \o "}"
    ELSE IF Len(x.a) < 1 THEN x.d ELSE x.d \o " {" \o x.a[1] \o "}"

ExtText(x) ==
    LET t == "[[" \o x.d \o "|" \o JoinWith(x.a, ",") \o "]]"
    IN CASE HasSuffix(x.d, "2") -> " " \o t \o "\n"
         [] HasSuffix(x.d, "3") -> "\n\t" \o t \o " \n\n"
         [] HasSuffix(x.d, "4") -> ""
         [] OTHER -> t
HasExt(b, x) == \E k \in 1 .. Len(b.ext) : b.ext[k] = x.d

ArgsText(x) ==
    LET isIf == x.d = "if" /\ ~x.m
        n    == Len(x.a)
        esc  == isIf /\ n > 0 /\ EndsInEscape(x.a[n])  \* what it escapes is the parenthesis
        as   == IF esc THEN [x.a EXCEPT ![n] = @ \o ")"] ELSE x.a
        qs   == [k \in 1 .. n |-> Enquote(as[k])]
    IN IF isIf THEN " (" \o (IF n > 0 /\ NeedsQuote(as[1]) THEN " " ELSE "") \o JoinWith(qs, " ") \o (IF esc THEN "" ELSE ")")
       ELSE FoldLeft(LAMBDA a, k : a \o " " \o qs[k], "", [k \in 1 .. Len(qs) |-> k])

RECURSIVE BuildBlock(_, _, _, _, _)
BuildBlock(b, inner, block, depth, line) ==
    LET step(a, k) ==
            LET x == block[k]
                isCom == x.d = "#" /\ x.hc
                lead == (IF k > 1 \/ inner THEN "\n" ELSE "") \o Margin(b, depth)
            IN IF isCom /\ x.l = a.last THEN [a EXCEPT !.out = @ \o " #" \o x.c]
               ELSE IF b.lua /\ x.d \in LuaNames THEN [last |-> x.l, out |-> a.out \o lead \o LuaText(x)]
               ELSE IF HasExt(b, x) THEN [last |-> x.l, out |-> a.out \o lead \o ExtText(x)]
               ELSE [ last |-> x.l,
                      out  |-> a.out \o lead \o
                        (IF isCom THEN "#" \o x.c
                         ELSE Enquote(x.d) \o ArgsText(x) \o
                              (IF ~x.hb THEN ";"
                               ELSE " {" \o BuildBlock(b, TRUE, x.b, depth + 1, x.l) \o "\n" \o Margin(b, depth) \o "}")) ]
    IN FoldLeft(step, [out |-> "", last |-> line], [k \in 1 .. Len(block) |-> k]).out

BuildText(b, parsed) ==
    LET body == BuildBlock(b, FALSE, parsed, 0, 0)
    IN (IF b.header THEN HeaderText ELSE "") \o (IF HasSuffix(body, "\n") THEN DropLast(body, 1) ELSE body)

\* what is written to a file, and what a creator's file holds after closing
FileText(b, parsed) == TrimRight(BuildText(b, parsed)) \o "\n"

-------------------------------------------------------------------------------
\* Trees up to what building does not keep: lines, and how comments are grouped
RECURSIVE EraseLines(_)
EraseLines(ds) == [k \in 1 .. Len(ds) |-> [ds[k] EXCEPT !.l = 0, !.b = EraseLines(@)]]
RECURSIVE NoComments(_)
NoComments(ds) ==
    LET r == SelectSeq(ds, LAMBDA x : ~(x.d = "#" /\ x.hc))
    IN [k \in 1 .. Len(r) |-> [r[k] EXCEPT !.b = NoComments(@)]]
RECURSIVE CommentsOf(_)
CommentsOf(ds) ==
    FoldLeft(LAMBDA a, x : a \o (IF x.d = "#" /\ x.hc THEN <<x.c>> ELSE <<>>) \o CommentsOf(x.b), <<>>, ds)
\* structural equality: absent and empty lists are the same
RECURSIVE StructEq(_, _)
StructEq(x, y) ==
    IF x.d = "<nil>" \/ y.d = "<nil>" THEN x.d = y.d
    ELSE /\ x.d = y.d /\ x.l = y.l /\ x.a = y.a /\ x.f = y.f /\ x.i = y.i /\ x.m = y.m
         /\ x.hc = y.hc /\ x.c = y.c
         /\ Len(x.b) = Len(y.b) /\ \A k \in 1 .. Len(x.b) : StructEq(x.b[k], y.b[k])

CommentText(ds) == JoinWith(CommentsOf(ds), " #")
===============================================================================
