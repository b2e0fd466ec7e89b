-------------------------------- MODULE MC_Lex --------------------------------
(* The lexer on every text of up to MaxLen pieces over an alphabet: one state  *)
(* per text, one transition per piece read.  Checks the lexical guarantees on  *)
(* the machine itself and exports every text with the tokens the machine gives *)
(* it, to be replayed into the implementation.                                 *)
EXTENDS NgxBuild, IOUtils

CONSTANTS MaxLen, UseLua, Export
Alphabet == JsonDeserialize(IOEnv.ALPHABET)   \* a sequence of pieces
Ext == IF UseLua THEN LuaNames ELSE {}

VARIABLES text, n, s
vars == <<text, n, s>>

Init == text = "" /\ n = 0 /\ s = LexInit
Read == /\ n < MaxLen /\ s.m # "end"
        /\ \E i \in 1 .. Len(Alphabet) :
              /\ text' = text \o Alphabet[i]
              /\ s' = LexFeed(s, Alphabet[i], Ext)
        /\ n' = n + 1
Next == Read
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Out == s.out
IsPunctTok(t) == ~t.q /\ t.e = "" /\ IsPunct(t.v)
IsCommentTok(t) == ~t.q /\ HasPrefix(t.v, "#")
Opens(ts)  == Cardinality({i \in 1 .. Len(ts) : IsPunctTok(ts[i]) /\ ts[i].v = "{"})
Closes(ts) == Cardinality({i \in 1 .. Len(ts) : IsPunctTok(ts[i]) /\ ts[i].v = "}"})
Errors(ts) == {i \in 1 .. Len(ts) : ts[i].e # ""}

TypeOK == /\ s.m \in LexModes /\ s.dep \in Nat /\ s.ld \in Nat
          /\ s.ln = 1 + CountChar(text, EOL)

\* lines never decrease, and none is beyond the line read so far
LinesMonotone == /\ \A i \in 1 .. Len(Out) : Out[i].l \in 1 .. s.ln
                 /\ \A i \in 2 .. Len(Out) : Out[i - 1].l <= Out[i].l

\* the block depth is the balance of the braces emitted and never negative
Balance == \A i \in 1 .. Len(Out) :
              LET p == SubSeq(Out, 1, i) IN Opens(p) >= Closes(p)
DepthIsBalance == s.dep = Opens(Out) - Closes(Out)

\* the stream has at most one brace error and nothing after it
ErrorLast == \A i \in Errors(Out) : Out[i].e # LuaWhat => i = Len(Out) /\ s.m = "end"

\* every `;` and `{` follows some directive's word
NoEmptyDirective ==
    LET real == SelectSeq(Out, LAMBDA t : ~IsCommentTok(t) /\ t.e = "")
    IN \A i \in 1 .. Len(real) : IsPunctTok(real[i]) /\ real[i].v # "}"
          => i > 1 /\ ~IsPunctTok(real[i - 1])

\* words carry no separators: unquoted tokens are punctuation, comments, or words
\* without a whitespace outside `${`
WordShape ==
    ~UseLua => \A i \in 1 .. Len(Out) :
        LET t == Out[i] IN
        t.e = "" /\ ~t.q => /\ t.v # ""
                            /\ (HasAnyOf(t.v, {" ", "\t"}) => IsCommentTok(t) \/ HasChar(t.v, "$") \/ HasChar(t.v, BS))

\* nothing is lost, invented or reordered: apart from separators, quotes and
\* backslashes the text read is the concatenation of the tokens' values
Dropped == SpaceSet \cup {DQ, SQ, BS, CR}
Strip(x) == FoldChars(LAMBDA a, ch : IF ch \in Dropped THEN a ELSE a \o ch, "", x)
Values == FoldLeft(LAMBDA a, t : a \o t.v, "", Out) \o s.t
Conservation == ~UseLua /\ s.m # "end" => Strip(text) = Strip(Values)

\* only the end of the text can add tokens, and at most two: the last word and an error
EndAdds == LET e == LexEnd(s).out IN
           /\ IsPrefix(Out, e) /\ Len(e) <= Len(Out) + 2
           /\ (s.dep > 0 /\ s.m # "end" => e[Len(e)].e = EofWhat)
           /\ (s.m = "end" => e = Out)

\* a read error after any prefix ends the stream with that error and drops the
\* unfinished token only
FailKeeps == s.m # "end" => LexFail(s, "boom").out = Append(Out, ErrTok("boom", s.ln))

\* a complete word of some text, quoted as building quotes it, reads back as itself
ReadsBack(v) == LET q == Enquote(v)
                    r == LexAll("x " \o q \o " ;", {}, "")
                IN Len(r) = 3 /\ r[2].v = v /\ r[2].e = "" /\ (r[2].q => q # v) /\ (~r[2].q => ~HasPrefix(v, "#"))
QuoteFaithful ==
    ~UseLua => \A i \in 1 .. Len(Out) :
        Out[i].e = "" /\ ~IsPunctTok(Out[i]) /\ ~IsCommentTok(Out[i]) => ReadsBack(Out[i].v)
PlainUntouched == \A i \in 1 .. Len(Out) : IsPlain(Out[i].v) => Enquote(Out[i].v) = Out[i].v

\* embedded Lua: the code is a piece of the text, verbatim, and ends its directive
Holds(x, p) == \E i \in 1 .. Len(x) - Len(p) + 1 : SubSeq(x, i, i + Len(p) - 1) = p
StartsDir(i) == i = 1 \/ IsPunctTok(Out[i - 1])
CodeAt(i) == IF Out[i].v = "set_by_lua_block" /\ i < Len(Out) /\ Out[i + 1].e = "" /\ ~Out[i + 1].q THEN i + 2 ELSE i + 1
LuaVerbatim ==
    UseLua => \A i \in 1 .. Len(Out) :
        StartsDir(i) /\ Out[i].e = "" /\ Out[i].v \in LuaNames /\ CodeAt(i) < Len(Out) =>
            LET t == Out[CodeAt(i)] IN
            IF t.e # "" THEN t.e = LuaWhat \/ t.e = "boom"
            ELSE /\ t.q /\ Holds(text, "{" \o t.v \o "}")
                 /\ Out[CodeAt(i) + 1].v = ";" /\ ~Out[CodeAt(i) + 1].q

ExportVec == Export => PrintT(ToJson([x |-> text, t |-> LexEnd(s).out]))
===============================================================================
