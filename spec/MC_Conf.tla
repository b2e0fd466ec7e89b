------------------------------- MODULE MC_Conf -------------------------------
(* Lexer and parser on every text of up to MaxLen pieces: the parser consumes  *)
(* the tokens as the lexer emits them.  Five parsers with different options    *)
(* run side by side, so that what relates them is an invariant of every state: *)
(*   par   collecting errors, keeping comments                                 *)
(*   stp   stopping on the first error                                         *)
(*   ncm   without comments                                                    *)
(*   ign   ignoring some directives                                            *)
(*   sng   single file                                                         *)
EXTENDS NgxBuild, IOUtils

CONSTANTS MaxLen, UseLua, Export
Setup    == JsonDeserialize(IOEnv.SETUP)   \* [pieces, base (a case), ignore]
Pieces   == Setup.pieces
Base     == Setup.base
Ignored  == Setup.ignore
Ext      == IF UseLua THEN LuaNames ELSE {}

Cpar == Base
Cstp == [Base EXCEPT !.opt.stop = TRUE]
Cncm == [Base EXCEPT !.opt.comments = FALSE]
Cign == [Base EXCEPT !.opt.ignore = Ignored]
Csng == [Base EXCEPT !.opt.single = TRUE]

VARIABLES text, n, s, par, stp, ncm, ign, sng
vars == <<text, n, s, par, stp, ncm, ign, sng>>

Shared0 == [queue |-> <<>>, names |-> <<Base.main>>, edges |-> {}]
P0 == ParseInit(Base.main, <<>>, Shared0)

Init == /\ text = "" /\ n = 0 /\ s = LexInit
        /\ par = P0 /\ stp = P0 /\ ncm = P0 /\ ign = P0 /\ sng = P0

Consume(c, p, toks) == FoldLeft(LAMBDA a, t : ParseStep(c, a, t), p, toks)

Read(i) ==
    LET s2  == LexFeed(s, Pieces[i], Ext)
        new == SubSeq(s2.out, Len(s.out) + 1, Len(s2.out))
    IN /\ n < MaxLen /\ s.m # "end"
       /\ text' = text \o Pieces[i] /\ n' = n + 1 /\ s' = s2
       /\ par' = Consume(Cpar, par, new)
       /\ stp' = Consume(Cstp, stp, new)
       /\ ncm' = Consume(Cncm, ncm, new)
       /\ ign' = Consume(Cign, ign, new)
       /\ sng' = Consume(Csng, sng, new)
Next == \E i \in 1 .. Len(Pieces) : Read(i)
Spec == Init /\ [][Next]_vars

\* the file ends here: what the parsers make of it
Tail2 == LET e == LexEnd(s) IN SubSeq(e.out, Len(s.out) + 1, Len(e.out))
EndOf(c, p) == ParseEnd(Consume(c, p, Tail2))

-------------------------------------------------------------------------------
\* what a parser holds, as one list per open block: the directives in it
Kids(p) == [i \in 1 .. Len(p.stack) |-> p.stack[i].kids]
Depths(p) == [i \in 1 .. Len(p.stack) |-> p.stack[i].skip]

\* the stack of open blocks follows the lexer's depth
DepthAgrees == par.fatal = <<>> => Len(par.stack) = s.dep + 1

\* stopping and collecting agree: same first error, same tree until then
FailFast ==
    LET a == EndOf(Cpar, par) b == EndOf(Cstp, stp)
        all == a.errs \o a.fatal
    IN /\ b.errs = <<>>
       /\ (b.fatal = <<>>) = (all = <<>>)
       /\ b.fatal # <<>> => b.fatal[1] = all[1]
       /\ all = <<>> => a.stack = b.stack

\* comments are only a filter
CommentFilter ==
    par.fatal = <<>> =>
        /\ Depths(par) = Depths(ncm) /\ par.errs = ncm.errs
        /\ \A i \in 1 .. Len(par.stack) : NoComments(Kids(par)[i]) = Kids(ncm)[i]
        /\ \A i \in 1 .. Len(ncm.stack) : CommentsOf(Kids(ncm)[i]) = <<>>

\* ignoring is only a filter; parameters of map-like blocks are never ignored.  Stated for texts
\* without errors (what an ignored directive contains is not validated)
IgnSet == {Ignored[i] : i \in 1 .. Len(Ignored)}
RECURSIVE Without(_, _)
Without(ds, inmap) ==
    LET keep == SelectSeq(ds, LAMBDA x : inmap \/ x.hc \/ x.m \/ x.d \notin IgnSet)
    IN [j \in 1 .. Len(keep) |-> [keep[j] EXCEPT !.b = Without(@, keep[j].d \in MapBlocks)]]
IgnoreFilter ==
    LET a == EndOf(Cpar, par) b == EndOf(Cign, ign)
    IN a.fatal = <<>> /\ a.errs = <<>> =>
          /\ b.fatal = <<>> /\ b.errs = <<>>
          /\ Without(NoComments(a.stack[1].kids), FALSE) = NoComments(b.stack[1].kids)

\* nothing is resolved with the single-file option, and nothing else changes
RECURSIVE NoIncl(_)
NoIncl(ds) == [j \in 1 .. Len(ds) |-> [ds[j] EXCEPT !.i = <<>>, !.hi = FALSE, !.b = NoIncl(@)]]
SingleFilter ==
    par.fatal = <<>> /\ sng.fatal = <<>> /\ Len(par.errs) = Len(sng.errs) =>
        /\ sng.names = <<Base.main>> /\ sng.edges = {}
        /\ \A i \in 1 .. Len(par.stack) : NoIncl(Kids(par)[i]) = Kids(sng)[i]

\* every directive of the tree stands in a block that admits it, has an end, and no
\* directive has fewer lines than its parent
RECURSIVE TreeOK(_, _, _)
TreeOK(ds, ctx, l0) ==
    \A j \in 1 .. Len(ds) :
        LET x == ds[j] IN
        /\ x.l >= l0 /\ x.l <= s.ln
        /\ j > 1 /\ ~x.hc => x.l >= ds[j - 1].l
        /\ x.m = (~x.hc /\ InMap(ctx)) /\ (x.m => ~x.hb)
        /\ x.hc => x.d = "#" /\ x.a = <<>> /\ ~x.hb
        /\ ~x.hb => x.b = <<>>
        /\ ~x.hc /\ ~x.m =>
              LET term == IF x.hb THEN "{" ELSE ";"
                  args == IF x.d = "if" THEN <<>> ELSE x.a  \* the parentheses are gone
              IN x.d = "if" \/ Verdict(Base.src, Base.opt, ctx, x.d, args, term) = ""
        /\ TreeOK(x.b, EnterCtx(x.d, ctx), x.l)
Accepted == LET a == EndOf(Cpar, par) IN a.fatal = <<>> => TreeOK(a.stack[1].kids, <<>>, 1)

\* errors carry a line already read, in order
ErrorLines == LET a == EndOf(Cpar, par) e == a.errs \o a.fatal
              IN \A i \in 1 .. Len(e) : e[i].l \in 1 .. s.ln

\* a complete text has balanced braces and no pending directive
Complete == LET a == EndOf(Cpar, par)
            IN a.fatal = <<>> => Len(a.stack) = 1 /\ ~a.has /\ s.dep = 0

\* a successful parse reads back: building the tree and parsing the text gives it again
BackTo(ds, b) ==
    LET toks == LexAll(BuildText(b, ds), Ext, "")
        r == ParseTokens(Cpar, Base.main, <<>>, Shared0, toks)
    IN IF r.fatal = <<>> /\ r.errs = <<>> THEN r.stack[1].kids ELSE << Dir("failed", 0, "") >>
BOpt == [indent |-> 0, tabs |-> FALSE, header |-> FALSE, lua |-> UseLua, ext |-> <<>>]
RoundTrip ==
    LET a == EndOf(Cpar, par) IN
    a.fatal = <<>> /\ a.errs = <<>> =>
        LET t == a.stack[1].kids
            u == BackTo(t, BOpt)
        IN /\ NoComments(EraseLines(u)) = NoComments(EraseLines(t))
           /\ CommentText(u) = CommentText(t)
           /\ BuildText(BOpt, BackTo(u, BOpt)) = BuildText(BOpt, u)

OutOf(c, p) == LET e == EndOf(c, p) IN [errs |-> e.errs \o e.fatal, bad |-> e.fatal # <<>>,
                                        parsed |-> IF e.fatal # <<>> THEN <<>> ELSE e.stack[1].kids]
\* Setup.out says which outcomes are exported
Outs == << [n |-> "par", o |-> OutOf(Cpar, par)], [n |-> "stp", o |-> OutOf(Cstp, stp)],
           [n |-> "ncm", o |-> OutOf(Cncm, ncm)], [n |-> "ign", o |-> OutOf(Cign, ign)], [n |-> "sng", o |-> OutOf(Csng, sng)] >>
Wanted == SelectSeq(Outs, LAMBDA r : \E i \in 1 .. Len(Setup.out) : Setup.out[i] = r.n)
Clean == LET a == EndOf(Cpar, par) IN a.fatal = <<>> /\ a.errs = <<>>
Built == IF Setup.built /\ Clean THEN << BuildText(BOpt, EndOf(Cpar, par).stack[1].kids) >> ELSE <<>>
ExportVec == Export => PrintT(ToJson([x |-> text, o |-> Wanted, bt |-> Built]))
===============================================================================
