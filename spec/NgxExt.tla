-------------------------------- MODULE NgxExt --------------------------------
(* External lexers in general.  A registration names the directives it is for   *)
(* and gives a program that reads characters and emits tokens:                  *)
(*   ["eat", n]     reads n characters           ["to", c]   reads up to and    *)
(*   ["sp"]         reads whitespace and one more             including a c      *)
(*   ["tok", q]     emits what was read as a token, quoted or not                *)
(*   ["lit", v, q]  emits the token v            ["err", w]  emits an error      *)
(*   ["name"]       emits the name it was asked for, quoted                      *)
(*   ["perr", w]    emits an error that is not a ParseError                      *)
(* What was read is kept until it is emitted.  At the end of the text (and when  *)
(* reading fails) a program that wants to read emits nothing but ["lit", "EOF",  *)
(* TRUE], if its registration says so, and is done.                              *)
EXTENDS NgxLex

\* lx the lexer; on is there a program running; pr what is left of it; buf what it has read; eof its last words
XInit == [lx |-> LexInit, on |-> FALSE, pr |-> <<>>, buf |-> "", eof |-> FALSE, nm |-> ""]

\* the registration a name belongs to: the last one that names it
RegOf(regs, name) == CHOOSE i \in 1 .. Len(regs) :
    /\ name \in ToSet(regs[i].n)
    /\ \A j \in i + 1 .. Len(regs) : name \notin ToSet(regs[j].n)
XNames(regs) == UNION {ToSet(regs[i].n) : i \in 1 .. Len(regs)}

\* a token that stands for itself in the lexer's state: what may follow
XPush(s, t) ==
    LET p == Push(s, t) IN
    IF ~t.q /\ HasPrefix(t.v, "#") THEN p
    ELSE [p EXCEPT !.pun = ~t.q /\ IsPunct(t.v), !.nd = ~t.q /\ IsPunct(t.v)]

\* what a program does until it reads again or is done
RECURSIVE XRun(_)
XRun(w) ==
    IF w.pr = <<>> THEN [w EXCEPT !.on = FALSE, !.buf = ""]
    ELSE LET i == Head(w.pr) IN
    CASE i[1] = "eat" /\ i[2] = 0 -> XRun([w EXCEPT !.pr = Tail(@)])
      [] i[1] = "tok" -> XRun([w EXCEPT !.pr = Tail(@), !.buf = "", !.lx = XPush(@, Tok(w.buf, w.lx.ln, i[2]))])
      [] i[1] = "lit" -> XRun([w EXCEPT !.pr = Tail(@), !.lx = XPush(@, Tok(i[2], w.lx.ln, i[3]))])
      [] i[1] = "name" -> XRun([w EXCEPT !.pr = Tail(@), !.lx = XPush(@, Tok(w.nm, w.lx.ln, TRUE))])
      [] i[1] \in {"err", "perr"} -> XRun([w EXCEPT !.pr = Tail(@), !.lx = XPush(@, ErrTok(i[2], w.lx.ln))])
      [] OTHER -> w

\* the program reads c
XRead(w, c) ==
    LET i == Head(w.pr)
        r == [w EXCEPT !.buf = @ \o c]
    IN XRun(CASE i[1] = "eat" -> [r EXCEPT !.pr[1] = <<"eat", i[2] - 1>>]
              [] i[1] = "to"  -> IF c = i[2] THEN [r EXCEPT !.pr = Tail(@)] ELSE r
              [] i[1] = "sp"  -> IF IsSpace(c) THEN r ELSE [r EXCEPT !.pr = Tail(@)])

\* the text goes on with c
XStep(w0, c, regs) ==
    IF w0.lx.m = "end" THEN w0
    ELSE LET w == IF c = EOL THEN [w0 EXCEPT !.lx.ln = @ + 1] ELSE w0
             s == w.lx IN
    IF w.on THEN XRead(w, c)
    ELSE IF c = CR THEN w
    ELSE IF c = BS /\ ~s.es THEN [w EXCEPT !.lx.es = TRUE]
    ELSE LET la == IF s.es THEN BS \o c ELSE c
             u  == [s EXCEPT !.es = FALSE]
         IN IF ~Hands(u, la, XNames(regs)) THEN [w EXCEPT !.lx = ModeStep(u, la)]
            ELSE LET r == regs[RegOf(regs, u.t)]
                     p == XRun([lx |-> [Emit(u, u.m = "quo") EXCEPT !.nd = FALSE], on |-> TRUE, pr |-> r.pr, buf |-> "", eof |-> r.eof, nm |-> u.t])
                 IN \* what ended the word has not been read by anybody yet
                    IF ~IsPunct(la) THEN p
                    ELSE IF p.on THEN XRead(p, la)
                    ELSE [p EXCEPT !.lx = ModeStep(@, la)]

XFeed(w, text, regs) == FoldChars(LAMBDA a, c : XStep(a, c, regs), w, text)

\* the text ends, or cannot be read any further
XEnd(w, fail) ==
    LET s == IF w.on /\ w.eof THEN XPush(w.lx, Tok("EOF", w.lx.ln, TRUE)) ELSE w.lx
    IN (IF fail = "" THEN LexEnd(s) ELSE LexFail(s, fail)).out

XLexAll(text, regs, fail) == XEnd(XFeed(XInit, text, regs), fail)
===============================================================================
