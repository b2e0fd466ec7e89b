-------------------------------- MODULE MC_Gen --------------------------------
(* Two families of C sources.  mode "pieces": every sequence of up to MaxLen    *)
(* pieces of source between pre and post, read piece by piece.  mode "gaps": one declaration whose   *)
(* tokens are separated by every choice of gap in up to MaxLen places; whatever *)
(* the gaps, the source declares the same.  Exports the texts with their tables. *)
EXTENDS NgxGen, IOUtils
CONSTANTS MaxLen, Export
Setup == JsonDeserialize(IOEnv.SETUP)   \* [mode, pre, pieces, post] or [mode, words, gaps, want]
Pieces == Setup.pieces

VARIABLES n, text, s, gap, from
vars == <<n, text, s, gap, from>>

Gapped == Setup.mode = "gaps"
NGaps == Len(Setup.words) + 1
GapText(g) == FoldLeft(LAMBDA a, i : a \o Setup.words[i] \o (IF g[i + 1] = 0 THEN Setup.plain[i + 1] ELSE Setup.gaps[g[i + 1]]),
                       IF g[1] = 0 THEN Setup.plain[1] ELSE Setup.gaps[g[1]], [i \in 1 .. Len(Setup.words) |-> i])

Init == /\ n = 0 /\ from = 1
        /\ gap = IF Gapped THEN [i \in 1 .. NGaps |-> 0] ELSE <<>>
        /\ text = IF Gapped THEN GapText(gap) ELSE Setup.pre
        /\ s = CFeed(CInit, text)
Next == /\ n < MaxLen /\ n' = n + 1
        /\ IF Gapped
           THEN /\ \E i \in from .. NGaps, g \in 1 .. Len(Setup.gaps) : gap' = [gap EXCEPT ![i] = g] /\ from' = i + 1
                /\ text' = GapText(gap') /\ s' = CFeed(CInit, text')
           ELSE \E i \in 1 .. Len(Pieces) : text' = text \o Pieces[i] /\ s' = CFeed(s, Pieces[i]) /\ UNCHANGED <<gap, from>>
Spec == Init /\ [][Next]_vars

Full == IF Gapped THEN text ELSE text \o Setup.post
Now == DeclaredBy(IF Gapped THEN CEnd(s) ELSE CEnd(CFeed(s, Setup.post)))
TypeOK == s.m \in CModes /\ s.bad \in BOOLEAN

\* reading piece by piece is reading the whole
Incremental == Gapped \/ CTokens(text) = CEnd(s)
\* the gaps change nothing
GapsIrrelevant == Gapped => Now.ok /\ Now.ds = Setup.want
\* a comment or a preprocessor line between two pieces adds nothing
Read(noise) == DeclaredBy(CEnd(CFeed(CFeed(s, noise), Setup.post)))
NoiseAdds == ~Gapped /\ s.m = "code" /\ ~s.pp /\ Now.ok =>
    /\ Read("/* { ngx_string(\"z\"), NGX_CONF_FLAG, } \" ' // */") = Now
    /\ Read("// } ; \" /* '\n") = Now
    /\ (s.bol => Read("#if (X) /* \n */ && { \"\n") = Now)
\* a name is declared as often as its string stands in an array
Once == Now.ok => Len(Now.ds) <= Len(SelectSeq(CTokens(Full).toks, LAMBDA t : t.k = "str"))

ExportVec == Export /\ Now.ok => PrintT(ToJson([x |-> Full, r |-> Generated([files |-> <<[n |-> "a.c", x |-> Full, k |-> ""]>>, at |-> "", filter |-> <<>>, over |-> <<>>])]))
===============================================================================
