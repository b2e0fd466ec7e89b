-------------------------------- MODULE MC_Ext --------------------------------
(* External lexers on every text of up to MaxLen pieces, for every set of       *)
(* registrations of Setup.regs.  Next to each lexer run the same lexer without  *)
(* any registration, and a record of what the programs have read.               *)
EXTENDS NgxExt, IOUtils
CONSTANTS MaxLen, Export
Setup == JsonDeserialize(IOEnv.SETUP)       \* [pieces, regs: a sequence of registrations' sequences]
Pieces == Setup.pieces

VARIABLES text, n, g, w, plain
vars == <<text, n, g, w, plain>>

Regs == Setup.regs[g]
Init == text = "" /\ n = 0 /\ g \in 1 .. Len(Setup.regs) /\ w = XInit /\ plain = LexInit
Next == /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED g
        /\ w.lx.m # "end" \/ plain.m # "end"
        /\ \E i \in 1 .. Len(Pieces) :
              /\ text' = text \o Pieces[i]
              /\ w' = XFeed(w, Pieces[i], Regs)
              /\ plain' = LexFeed(plain, Pieces[i], {})
Spec == Init /\ [][Next]_vars

Out == XEnd(w, "")
\* a name in the place of a directive's
Puncts(t) == ~t.q /\ t.e = "" /\ IsPunct(t.v)
Comment(t) == ~t.q /\ HasPrefix(t.v, "#")
Begins(ts, i) == LET before == SelectSeq(SubSeq(ts, 1, i - 1), LAMBDA t : ~Comment(t)) IN before = <<>> \/ Puncts(before[Len(before)])
Named(ts) == {i \in 1 .. Len(ts) : ts[i].e = "" /\ ts[i].v \in XNames(Regs) /\ Begins(ts, i)}
PlainOut == LexEnd(plain).out

\* programs are asked for their own directives only: without these, they change nothing
Unasked == Named(PlainOut) = {} => Out = PlainOut
\* a program that does nothing changes nothing
Idle == (\A i \in 1 .. Len(Regs) : Regs[i].pr = <<>>) => Out = PlainOut
\* up to the first name, and that name, nothing is different
SamePrefix == \A i \in Named(PlainOut) : (\A j \in Named(PlainOut) : i <= j) => SubSeq(Out, 1, i) = SubSeq(PlainOut, 1, i)
Lines == /\ w.lx.ln = plain.ln \/ plain.m = "end" \/ w.lx.m = "end"
         /\ \A i \in 2 .. Len(Out) : Out[i - 1].l <= Out[i].l
\* the depth counts the lexer's own braces only
Holds(x, p) == p = "" \/ \E i \in 1 .. Len(x) - Len(p) + 1 : SubSeq(x, i, i + Len(p) - 1) = p
ReadsText == w.on => HasSuffix(text, w.buf)

ExportVec == Export => PrintT(ToJson([g |-> g, x |-> text, t |-> Out]))
===============================================================================
