------------------------------- MODULE NgxLex -------------------------------
(* The lexer: a state machine that consumes a text one character at a time and *)
(* emits tokens.  LexStep is the only transition; Feed, Flush and Fail are the *)
(* three ways a text can go on (another character, its end, a read error).     *)
(* Registered external lexers are modelled by the Lua modes: a word or string  *)
(* that is complete in directive position and whose name is in `ext` hands the *)
(* following characters to the Lua sub-machine until its closing brace.        *)
EXTENDS NgxChars

LuaNames == { "init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block",
              "set_by_lua_block", "content_by_lua_block", "server_rewrite_by_lua_block",
              "rewrite_by_lua_block", "access_by_lua_block", "header_filter_by_lua_block",
              "body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block",
              "ssl_client_hello_by_lua_block", "ssl_certificate_by_lua_block",
              "ssl_session_fetch_by_lua_block", "ssl_session_store_by_lua_block" }

LexModes == {"sp", "word", "com", "var", "quo", "larg", "lopen", "lbody", "end"}

(* m    mode: between tokens, in a word, a comment, `${...}`, a string, the     *)
(*      variable of set_by_lua_block, before and inside Lua code, ended        *)
(* t    the token so far            tl   the line it started on               *)
(* ln   the current line            nw   a word is just starting              *)
(* es   a backslash is pending      q    the delimiter of the current string  *)
(* dep  open blocks                 pun  `;` or `{` may not follow            *)
(* nd   the next word is a directive's name                                   *)
(* ld   open braces in Lua code     lq   the Lua quote that is open           *)
(* out  the tokens emitted: v(alue) l(ine) q(uoted) e(rror)                   *)
LexInit == [ m |-> "sp", t |-> "", tl |-> 1, ln |-> 1, nw |-> FALSE, es |-> FALSE, q |-> "",
             dep |-> 0, pun |-> TRUE, nd |-> TRUE, ld |-> 0, lq |-> "", out |-> <<>> ]

Tok(v, l, q)  == [v |-> v, l |-> l, q |-> q, e |-> ""]
ErrTok(e, l)  == [v |-> "", l |-> l, q |-> FALSE, e |-> e]
Unexpected(c) == "unexpected \"" \o c \o "\""
EofWhat       == "unexpected end of file, expecting \"}\""
LuaWhat       == "expected \"{\" to start lua block"

Push(s, tok) == [s EXCEPT !.out = Append(@, tok)]
Emit(s, quoted) == [s EXCEPT !.out = Append(@, Tok(s.t, s.tl, quoted)), !.t = "", !.m = "sp"]

\* a character of embedded Lua code, or of what stands before it
RECURSIVE LuaStep(_, _)
LuaStep(s, c) ==
    CASE s.m = "larg" ->
           IF IsSpace(c)
           THEN IF s.t = "" THEN s ELSE [Emit(s, FALSE) EXCEPT !.m = "lopen", !.pun = FALSE]
           ELSE IF c = ";" \/ (c = "}" /\ s.t = "") \/ (c = "{" /\ ~HasSuffix(s.t, "$"))
           THEN LuaStep([(IF s.t = "" THEN s ELSE Emit(s, FALSE)) EXCEPT !.m = "lopen", !.pun = IF s.t = "" THEN @ ELSE FALSE], c)
           ELSE [s EXCEPT !.t = @ \o c, !.tl = IF s.t = "" THEN s.ln ELSE @]
      [] s.m = "lopen" ->
           IF IsSpace(c) THEN s
           ELSE IF c = "{" THEN [s EXCEPT !.m = "lbody", !.ld = 1, !.lq = "", !.t = ""]
           ELSE [Push(s, ErrTok(LuaWhat, s.ln)) EXCEPT !.m = "sp", !.pun = FALSE, !.nd = FALSE]
      [] s.m = "lbody" ->
           IF c = "{" /\ s.lq = "" THEN [s EXCEPT !.ld = @ + 1, !.t = @ \o c]
           ELSE IF c = "}" /\ s.lq = ""
                THEN IF s.ld > 1 THEN [s EXCEPT !.ld = @ - 1, !.t = @ \o c]
                     ELSE [s EXCEPT !.out = @ \o <<Tok(s.t, s.ln, TRUE), Tok(";", s.ln, FALSE)>>,
                                    !.t = "", !.m = "sp", !.ld = 0, !.pun = TRUE]
           ELSE [s EXCEPT !.t = @ \o c,
                          !.lq = IF c \notin {DQ, SQ} THEN @
                                 ELSE IF @ = "" THEN c ELSE IF @ = c THEN "" ELSE @]

\* a character (or a backslash with the character it escapes) in a word
WordStep(s, c) ==
    IF s.nw /\ c = "#" THEN [s EXCEPT !.nw = FALSE, !.t = c, !.m = "com", !.tl = s.ln]
    ELSE LET w == [s EXCEPT !.nw = FALSE] IN
    IF IsSpace(c) THEN [Emit(w, FALSE) EXCEPT !.nd = FALSE]
    ELSE IF w.t # "" /\ Last1(w.t) = "$" /\ c = "{"
         THEN [w EXCEPT !.nd = FALSE, !.t = @ \o c, !.m = "var", !.pun = FALSE]
    ELSE IF c \in {DQ, SQ}
         THEN IF w.t # "" THEN [w EXCEPT !.t = @ \o c, !.pun = FALSE]
              ELSE [w EXCEPT !.q = c, !.m = "quo", !.tl = s.ln, !.pun = FALSE]
    ELSE IF IsPunct(c)
         THEN LET e == [(IF w.t # "" THEN Emit(w, FALSE) ELSE w) EXCEPT !.tl = s.ln] IN
              IF e.pun /\ c # "}"
              THEN [Push(e, ErrTok(Unexpected(c), s.ln)) EXCEPT !.m = "end"]
              ELSE IF c = "}" /\ e.dep = 0
              THEN [Push(e, ErrTok(Unexpected(c), s.ln)) EXCEPT !.m = "end"]
              ELSE [Push(e, Tok(c, s.ln, FALSE)) EXCEPT
                      !.m = "sp", !.pun = TRUE, !.nd = TRUE,
                      !.dep = IF c = "{" THEN @ + 1 ELSE IF c = "}" THEN @ - 1 ELSE @]
    ELSE [w EXCEPT !.t = @ \o c, !.pun = FALSE]

ModeStep(s, c) ==
    CASE s.m = "sp"   -> IF IsSpace(c) THEN s
                         ELSE WordStep([s EXCEPT !.m = "word", !.nw = TRUE, !.tl = s.ln], c)
      [] s.m = "word" -> WordStep(s, c)
      [] s.m = "com"  -> IF HasSuffix(c, EOL) THEN Emit(s, FALSE) ELSE [s EXCEPT !.t = @ \o c]
      [] s.m = "var"  -> [s EXCEPT !.t = @ \o c,
                                   !.m = IF HasSuffix(c, "}") \/ IsSpace(c) THEN "word" ELSE @]
      [] s.m = "quo"  -> IF c = s.q THEN [Emit(s, TRUE) EXCEPT !.nd = FALSE]
                         ELSE [s EXCEPT !.t = @ \o (IF c = BS \o s.q THEN s.q ELSE c)]

\* the name of a directive with its own lexer is complete at character c
Hands(s, c, ext) ==
    /\ s.nd /\ s.t # "" /\ s.t \in ext
    /\ \/ s.m = "word" /\ (IsSpace(c) \/ IsPunct(c))
       \/ s.m = "quo" /\ c = s.q

HandOver(s, c) ==
    LET e == [Emit(s, s.m = "quo") EXCEPT !.m = IF s.t = "set_by_lua_block" THEN "larg" ELSE "lopen"]
    IN IF IsPunct(c) THEN LuaStep(e, c) ELSE e

\* Feed: the next character of the text
LexStep(s0, c, ext) ==
    IF s0.m = "end" THEN s0
    ELSE LET s == IF c = EOL THEN [s0 EXCEPT !.ln = @ + 1] ELSE s0 IN
    IF s.m \in {"larg", "lopen", "lbody"} THEN LuaStep(s, c)
    ELSE IF c = CR THEN s
    ELSE IF c = BS /\ ~s.es THEN [s EXCEPT !.es = TRUE]
    ELSE LET la == IF s.es THEN BS \o c ELSE c
             u  == [s EXCEPT !.es = FALSE]
         IN IF Hands(u, la, ext) THEN HandOver(u, la) ELSE ModeStep(u, la)

\* Flush: the text ends here
LexEnd(s) ==
    IF s.m = "end" THEN s
    ELSE LET f == IF s.t # "" /\ s.m \notin {"larg", "lopen", "lbody"} THEN Emit(s, s.m = "quo") ELSE s
         IN [(IF s.dep > 0 THEN Push(f, ErrTok(EofWhat, s.ln)) ELSE f) EXCEPT !.m = "end", !.t = ""]

\* Fail: the text cannot be read any further
LexFail(s, what) ==
    IF s.m = "end" THEN s
    ELSE [Push(s, ErrTok(what, s.ln)) EXCEPT !.m = "end", !.t = ""]

LexFeed(s, text, ext) == FoldChars(LAMBDA a, c : LexStep(a, c, ext), s, text)

\* the tokens of a whole text; fail is "" or the error its reader ends with
LexAll(text, ext, fail) ==
    LET s == LexFeed(LexInit, text, ext)
    IN (IF fail = "" THEN LexEnd(s) ELSE LexFail(s, fail)).out
=============================================================================
