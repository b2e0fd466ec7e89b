------------------------------- MODULE NgxParse -------------------------------
(* The parser: a state machine over the token stream of one file with a stack  *)
(* of open blocks, and around it the queue of files to parse.                  *)
(*                                                                             *)
(* A case `c` is what a caller provides:                                       *)
(*   main                    the file to parse                                 *)
(*   files   seq of [n(ame), k(ind), x text, e(rror)]   the file system        *)
(*           k: "ok", "open" (cannot be opened), "read" (read fails after x)   *)
(*   globs   seq of [p(attern), e(rror), n(ames)]       what Glob answers      *)
(*   opt     [ignore, stop, combine, single, comments, strict, skipctx,        *)
(*            skipargs, lua]                                                   *)
(*   src     seq of sources, see NgxValidate                                   *)
EXTENDS NgxExt, NgxValidate, NgxPath

\* a directive: name, line, args, file, includes (and whether it has some),
\* block (and whether it has one), comment (ditto), map parameter
Dir(d, l, f) == [ d |-> d, l |-> l, a |-> <<>>, f |-> f, i |-> <<>>, hi |-> FALSE,
                  b |-> <<>>, hb |-> FALSE, c |-> "", hc |-> FALSE, m |-> FALSE ]
CommentDir(text, l, f) == [Dir("#", l, f) EXCEPT !.c = text, !.hc = TRUE]
DirText(x) == x.d \o " " \o JoinWith(x.a, " ") \o (IF x.b = <<>> THEN "" ELSE " {...}")

\* an error: reason, line (0: none), file, statement, block, message
ErrText(what, file, line) == what \o " in " \o file \o ":" \o ToString(line)
PErr(what, line, file, stmt, block) ==
    [w |-> what, l |-> line, f |-> file, s |-> stmt, b |-> block, t |-> ErrText(what, file, line)]
RawErr(text) == [w |-> text, l |-> 0, f |-> "", s |-> "", b |-> "", t |-> text]

PrematureWhat == "premature end of file"
CycleWhat     == "configs contain include cycle"

IsComment(tok) == HasPrefix(tok.v, "#") /\ ~tok.q
IsTerm(tok)    == tok.e = "" /\ ~tok.q /\ tok.v \in {"{", ";", "}"}

-------------------------------------------------------------------------------
\* the condition of an `if`, without its parentheses
IfArgs(args) ==
    LET n == Len(args) IN
    IF n = 0 \/ ~HasPrefix(args[1], "(") \/ ~HasSuffix(args[n], ")") THEN args
    ELSE LET a1 == [args EXCEPT ![1] = TrimLeft(DropFirst(@, 1))]
             a2 == [a1 EXCEPT ![n] = TrimUnescaped(IF HasSuffix(@, ")") THEN DropLast(@, 1) ELSE @)]
             b  == IF a2[1] = "" THEN 2 ELSE 1
             e  == IF n >= b /\ a2[n] = "" THEN n - 1 ELSE n
         IN SubSeq(a2, b, e)

-------------------------------------------------------------------------------
\* the file system of a case
FileIdx(c, n) == {i \in 1 .. Len(c.files) : c.files[i].n = n}
HasFile(c, n) == FileIdx(c, n) # {}
FileOf(c, n)  == c.files[CHOOSE i \in FileIdx(c, n) : TRUE]
OpenErr(c, n) == IF ~HasFile(c, n) THEN "open " \o n \o ": no such file or directory"
                 ELSE IF FileOf(c, n).k = "open" THEN FileOf(c, n).e ELSE ""
GlobIdx(c, p) == {i \in 1 .. Len(c.globs) : c.globs[i].p = p}
GlobErr(c, p) == IF GlobIdx(c, p) = {} THEN "" ELSE c.globs[CHOOSE i \in GlobIdx(c, p) : TRUE].e
GlobNames(c, p) == IF GlobIdx(c, p) = {} THEN <<>> ELSE c.globs[CHOOSE i \in GlobIdx(c, p) : TRUE].n

-------------------------------------------------------------------------------
(* Parser state.  stack: open blocks, outermost first; a frame is              *)
(*   [ctx, skip, own (the directive whose block it is), cms, kids]             *)
(* cur: the directive being read, cms: comments between its arguments.         *)
(* queue, names, edges: files found so far (shared by all files of a parse).   *)
Frame(ctx, skip, own, cms) == [ctx |-> ctx, skip |-> skip, own |-> own, cms |-> cms, kids |-> <<>>]
NoDir == Dir("", 0, "")

ParseInit(file, ctx, shared) ==
    [ stack |-> << Frame(ctx, FALSE, NoDir, <<>>) >>, has |-> FALSE, cur |-> NoDir, cms |-> <<>>,
      errs |-> <<>>, fatal |-> <<>>, file |-> file,
      queue |-> shared.queue, names |-> shared.names, edges |-> shared.edges ]

Top(s)      == s.stack[Len(s.stack)]
TopCtx(s)   == Top(s).ctx
Fatal(s, e) == [s EXCEPT !.fatal = <<e>>]
AddKids(s, ds) == [s EXCEPT !.stack[Len(s.stack)].kids = @ \o ds]
PushFrame(s, f) == [s EXCEPT !.stack = Append(@, f)]
CommentDirs(cms, stmt) == [k \in 1 .. Len(cms) |-> CommentDir(cms[k], stmt.l, stmt.f)]

\* the innermost open block ends
Close(s) ==
    LET f == Top(s)
        u == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    IN IF f.skip THEN u
       ELSE AddKids(u, << [f.own EXCEPT !.b = f.kids, !.hb = TRUE] >> \o CommentDirs(f.cms, f.own))

\* an error in directive cur, which ended with term: report it, leave the directive out
Reject(c, s, err, term) ==
    IF c.opt.stop THEN Fatal(s, err)
    ELSE LET u == [s EXCEPT !.errs = Append(@, err)]
         IN IF term = "}" THEN Close(u)
            ELSE IF term = "{" THEN PushFrame(u, Frame(TopCtx(s), TRUE, NoDir, <<>>))
            ELSE u

\* the lexer's error, as an error in this file
TokenErr(s, tok) == PErr(tok.e, tok.l, s.file, "", LastBlock(TopCtx(s)))
Premature(s)     == PErr(PrematureWhat, s.cur.l, s.file, "", LastBlock(TopCtx(s)))

\* one file is included
AddInclude(s, from, n, ctx) ==
    LET known == \E k \in 1 .. Len(s.names) : s.names[k] = n
        u == IF known THEN s ELSE [s EXCEPT !.names = Append(@, n), !.queue = Append(@, [n |-> n, ctx |-> ctx])]
        idx == (CHOOSE k \in 1 .. Len(u.names) : u.names[k] = n) - 1
    IN [u EXCEPT !.cur.i = Append(@, idx), !.cur.hi = TRUE, !.edges = @ \cup {<<from, n>>}]

\* resolve the include directive cur
Include(c, s) ==
    LET ctx == TopCtx(s)
        st  == s.cur
        pat == IF IsAbs(st.a[1]) THEN st.a[1] ELSE JoinPath(DirOf(c.main), st.a[1])
        addAll(names) == FoldLeft(LAMBDA a, k : AddInclude(a, s.file, names[k], ctx), s, [k \in 1 .. Len(names) |-> k])
    IN IF st.a = <<>>
       THEN Fatal(s, PErr("invalid number of arguments in \"include\" directive in " \o s.file \o ":" \o ToString(st.l),
                          st.l, s.file, DirText(st), LastBlock(ctx)))
       ELSE IF HasMagic(pat)
            THEN IF GlobErr(c, pat) # "" THEN Fatal(s, RawErr(GlobErr(c, pat)))
                 ELSE addAll(SortStrs(GlobNames(c, pat)))
       ELSE IF OpenErr(c, pat) # ""
            THEN LET e == PErr(OpenErr(c, pat), st.l, s.file, DirText(st), LastBlock(ctx))
                 IN IF c.opt.stop THEN Fatal(s, e) ELSE [s EXCEPT !.errs = Append(@, e)]
       ELSE addAll(<<pat>>)

\* directive cur is accepted: it becomes part of the tree, or opens its block
Accept(c, s, term) ==
    LET s1 == IF s.cur.d = "if" THEN [s EXCEPT !.cur.a = IfArgs(@)] ELSE s
        s2 == IF s1.cur.d = "include" /\ ~c.opt.single THEN Include(c, s1) ELSE s1
    IN IF s2.fatal # <<>> THEN s2
       ELSE IF term = "{"
            THEN PushFrame(s2, Frame(EnterCtx(s2.cur.d, TopCtx(s)), FALSE, s2.cur, s2.cms))
            ELSE AddKids(s2, <<s2.cur>> \o CommentDirs(s2.cms, s2.cur))

\* directive cur is complete and ended with term
Finish(c, s, term) ==
    LET ctx == TopCtx(s)
        st  == s.cur
        u   == [s EXCEPT !.has = FALSE]
    IN IF InMap(ctx)
       THEN LET w == ParamVerdict(ctx[Len(ctx)], st.d, st.a, term)
            IN IF w # "" THEN Reject(c, u, PErr(w, st.l, s.file, DirText(st), ctx[Len(ctx)]), term)
               ELSE LET p == [st EXCEPT !.m = TRUE] IN AddKids(u, <<p>> \o CommentDirs(s.cms, p))
       ELSE IF st.d \in {c.opt.ignore[k] : k \in 1 .. Len(c.opt.ignore)} /\ term # "}"
       THEN IF term = "{" THEN PushFrame(u, Frame(ctx, TRUE, NoDir, <<>>)) ELSE u
       ELSE LET w == Verdict(c.src, c.opt, ctx, st.d, st.a, term)
            IN IF w # "" THEN Reject(c, u, PErr(w, st.l, s.file, DirText(st), LastBlock(ctx)), term)
               ELSE Accept(c, u, term)

\* the next token
ParseStep(c, s, tok) ==
    IF s.fatal # <<>> THEN s
    ELSE IF ~s.has
    THEN IF tok.e # "" THEN Fatal(s, TokenErr(s, tok))
         ELSE IF tok.v = "}" /\ ~tok.q THEN Close(s)
         ELSE IF Top(s).skip
              THEN IF tok.v = "{" /\ ~tok.q THEN PushFrame(s, Frame(TopCtx(s), TRUE, NoDir, <<>>)) ELSE s
         ELSE LET f == IF c.opt.combine THEN s.file ELSE ""
              IN IF IsComment(tok)
                 THEN IF c.opt.comments THEN AddKids(s, << CommentDir(DropFirst(tok.v, 1), tok.l, f) >>) ELSE s
                 ELSE [s EXCEPT !.has = TRUE, !.cur = Dir(tok.v, tok.l, f), !.cms = <<>>]
    ELSE IF IsTerm(tok) THEN Finish(c, s, tok.v)
    ELSE IF tok.e # "" THEN Fatal(s, IF tok.e = EofWhat THEN Premature(s) ELSE TokenErr(s, tok))
    ELSE IF IsComment(tok)
         THEN IF c.opt.comments THEN [s EXCEPT !.cms = Append(@, DropFirst(tok.v, 1))] ELSE s
    ELSE [s EXCEPT !.cur.a = Append(@, tok.v)]

\* the tokens are at their end
ParseEnd(s) ==
    IF s.fatal # <<>> THEN s
    ELSE IF s.has THEN Fatal(s, Premature(s)) ELSE s

ParseTokens(c, file, ctx, shared, toks) ==
    ParseEnd(FoldLeft(LAMBDA a, t : ParseStep(c, a, t), ParseInit(file, ctx, shared), toks))

Status(errs) == IF errs = <<>> THEN "ok" ELSE "failed"

-------------------------------------------------------------------------------
\* all files.  State: queue, names, edges, done (configs so far), perrs (payload
\* errors so far), ret: the error Parse returns, if any
LuaExt(c) == IF c.opt.lua THEN LuaNames ELSE {}
ParseFile(c, s, item) ==
    LET oe == OpenErr(c, item.n) IN
    IF oe # "" THEN [s EXCEPT !.ret = <<RawErr(oe)>>]
    ELSE LET file == FileOf(c, item.n)
             fail == IF file.k = "read" THEN file.e ELSE ""
             toks == IF "regs" \in DOMAIN c THEN XLexAll(file.x, c.regs, fail) ELSE LexAll(file.x, LuaExt(c), fail)
             p    == ParseTokens(c, item.n, item.ctx, s, toks)
             bad  == p.fatal # <<>>
             errs == p.errs \o p.fatal
             cfg  == [ file |-> item.n, st |-> Status(errs), errs |-> errs,
                       parsed |-> IF bad THEN <<>> ELSE p.stack[1].kids ]
         IN IF bad /\ c.opt.stop THEN [s EXCEPT !.ret = p.fatal]
            ELSE [s EXCEPT !.queue = p.queue, !.names = p.names, !.edges = p.edges,
                           !.done = Append(@, cfg),
                           !.perrs = @ \o [k \in 1 .. Len(errs) |-> [file |-> item.n, err |-> errs[k]]]]

RECURSIVE ParseQueue(_, _)
ParseQueue(c, s) ==
    IF s.ret # <<>> \/ s.queue = <<>> THEN s
    ELSE ParseQueue(c, ParseFile(c, [s EXCEPT !.queue = Tail(@)], Head(s.queue)))

\* edges lead from a file to one it includes
RECURSIVE Acyclic(_)
Acyclic(E) ==
    LET leaf == {e \in E : ~\E g \in E : g[1] = e[2]}
    IN IF E = {} THEN TRUE ELSE IF leaf = {} THEN FALSE ELSE Acyclic(E \ leaf)

NoPayload == [st |-> "", errs |-> <<>>, config |-> <<>>]
Failure(err) == [ret |-> <<err>>, payload |-> NoPayload]

\* the outcome without combining
ParseFiles(c) ==
    LET s == ParseQueue(c, [ queue |-> << [n |-> c.main, ctx |-> <<>>] >>, names |-> <<c.main>>,
                             edges |-> {}, done |-> <<>>, perrs |-> <<>>, ret |-> <<>> ])
    IN IF s.ret # <<>> THEN Failure(s.ret[1])
       ELSE IF ~Acyclic(s.edges) THEN Failure(RawErr(CycleWhat))
       ELSE [ret |-> <<>>, payload |-> [st |-> Status(s.perrs), errs |-> s.perrs, config |-> s.done]]
===============================================================================
