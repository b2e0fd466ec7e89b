------------------------------- MODULE MC_Build -------------------------------
(* Layout, on every tree of up to MaxOps statements: a tree is written down     *)
(* statement by statement, as an author would: a leaf, an opened block, the     *)
(* end of a block; each on a new line or on the line of the last one.           *)
EXTENDS NgxBuild, IOUtils

CONSTANTS MaxOps, Export
Setup == JsonDeserialize(IOEnv.SETUP)
\* [items: directives, layouts: build options]; items with hb are opened blocks

VARIABLES heads, lists, n, ln
vars == <<heads, lists, n, ln>>

Init == heads = <<>> /\ lists = << <<>> >> /\ n = 0 /\ ln = 1
TopB == Len(lists)
Put(x) == [lists EXCEPT ![TopB] = Append(@, x)]
Lines == IF n = 0 THEN {1} ELSE {ln, ln + 1}
Leaf == \E i \in 1 .. Len(Setup.items), l \in Lines :
           /\ ~Setup.items[i].hb
           /\ lists' = Put([Setup.items[i] EXCEPT !.l = l])
           /\ ln' = l /\ heads' = heads
Open == \E i \in 1 .. Len(Setup.items), l \in Lines :
           /\ Setup.items[i].hb
           /\ lists' = Append(lists, <<>>)
           /\ heads' = Append(heads, [Setup.items[i] EXCEPT !.l = l])
           /\ ln' = l
Closed(hs, ls) == [ls EXCEPT ![Len(ls) - 1] = Append(@, [hs[Len(hs)] EXCEPT !.b = ls[Len(ls)]])]
CloseB == /\ heads # <<>>
         /\ lists' = SubSeq(Closed(heads, lists), 1, TopB - 1)
         /\ heads' = SubSeq(heads, 1, Len(heads) - 1)
         /\ \E l \in Lines : ln' = l
Next == n < MaxOps /\ n' = n + 1 /\ (Leaf \/ Open \/ CloseB)
Spec == Init /\ [][Next]_vars

Whole == heads = <<>>
Tree == lists[1]
Layouts == 1 .. Len(Setup.layouts)
B(j) == Setup.layouts[j]
-------------------------------------------------------------------------------
\* the layout, said once more: a sequence of lines, each with its depth
IsCom(x) == x.d = "#" /\ x.hc
Own(b, x) == (b.lua /\ x.d \in LuaNames) \/ HasExt(b, x)
HeadText(b, x) == IF b.lua /\ x.d \in LuaNames THEN LuaText(x)
              ELSE IF HasExt(b, x) THEN ExtText(x)
              ELSE IF IsCom(x) THEN "#" \o x.c
              ELSE Enquote(x.d) \o ArgsText(x) \o (IF x.hb THEN " {" ELSE ";")
\* a comment first in a block and on its line is written behind the brace
RECURSIVE Hoist(_)
\* (such comments are moved out in front, behind their block's head: [c] marks them)
Lead(x) == IF x.hb THEN Len(SelectSeq([i \in 1 .. Len(x.b) |-> \A j \in 1 .. i : IsCom(x.b[j]) /\ x.b[j].l = x.l], LAMBDA t : t)) ELSE 0
Hoist(ds) == [k \in 1 .. Len(ds) |-> IF ds[k].hb THEN [ds[k] EXCEPT !.b = Hoist(SubSeq(@, Lead(ds[k]) + 1, Len(@))),
                                                                     !.c = FoldLeft(LAMBDA a, i : a \o " #" \o ds[k].b[i].c, "", [i \in 1 .. Lead(ds[k]) |-> i])]
                                     ELSE ds[k]]
RECURSIVE Text(_, _, _)
Text(b, ds, depth) ==
    LET h == Hoist(ds)
        one(k) == LET x == h[k] IN
                  IF Own(b, x) \/ ~x.hb THEN HeadText(b, x)
                  ELSE HeadText(b, x) \o x.c \o (IF x.b = <<>> THEN "" ELSE "\n" \o Text(b, x.b, depth + 1)) \o "\n" \o Margin(b, depth) \o "}"
        glued(k) == IsCom(h[k]) /\ k > 1 /\ h[k - 1].l = h[k].l
    IN FoldLeft(LAMBDA a, k : a \o (IF glued(k) THEN " #" \o h[k].c ELSE (IF k > 1 THEN "\n" ELSE "") \o Margin(b, depth) \o one(k)), "", [k \in 1 .. Len(h) |-> k])
SameText == Whole => \A j \in Layouts : BuildText(B(j), Tree) = (IF B(j).header THEN HeaderText ELSE "") \o Text(B(j), Tree, 0)

\* the tokens of a tree, in order
RECURSIVE TokensOf(_, _)
Words(x) == LET a == x.a m == Len(a) IN
            IF x.d # "if" \/ x.m THEN a
            ELSE IF m = 0 THEN <<"()">>
            ELSE LET q1 == NeedsQuote(a[1]) qm == NeedsQuote(a[m])
                     f == IF q1 THEN <<"(", a[1]>> ELSE <<"(" \o a[1]>>
                     all == f \o SubSeq(a, 2, m)
                 IN IF qm THEN Append(all, ")") ELSE [all EXCEPT ![Len(all)] = @ \o ")"]
TokensOf(b, ds) ==
    FoldLeft(LAMBDA acc, x :
        acc \o (IF IsCom(x) THEN <<"#" \o x.c>>
                ELSE IF b.lua /\ x.d \in LuaNames THEN (IF x.a = <<>> THEN <<x.d>> ELSE <<x.d>> \o x.a \o <<";">>)
                ELSE <<x.d>> \o Words(x) \o (IF x.hb THEN <<"{">> \o TokensOf(b, x.b) \o <<"}">> ELSE <<";">>)), <<>>, ds)
\* comments on one line are one comment of the text
RECURSIVE HasTwo(_)
HasTwo(ds) == \E k \in 1 .. Len(ds) : \/ (IsCom(ds[k]) /\ k > 1 /\ IsCom(ds[k - 1]) /\ ds[k - 1].l = ds[k].l)
                                       \/ Lead(ds[k]) > 1 \/ HasTwo(ds[k].b)
Relexes == Whole /\ ~HasTwo(Tree) => \A j \in Layouts : B(j).ext = <<>> /\ ~B(j).header =>
              LET r == LexAll(BuildText(B(j), Tree), IF B(j).lua THEN LuaNames ELSE {}, "")
              IN [i \in 1 .. Len(r) |-> r[i].v] = TokensOf(B(j), Tree) /\ \A i \in 1 .. Len(r) : r[i].e = ""

\* one statement per line, at its depth: no line starts with anything but its margin
Depths == LET h == [j \in Layouts |-> BuildText([B(j) EXCEPT !.header = FALSE], Tree)]
          IN \A j \in Layouts : \A k \in Layouts :
               B(j).lua = B(k).lua /\ B(j).ext = B(k).ext =>
                 LET a == SplitAt(h[j], EOL) c == SplitAt(h[k], EOL)
                 IN Len(a) = Len(c) /\ \A i \in 1 .. Len(a) : TrimLeft(a[i]) = TrimLeft(c[i])
SameUpToMargin == Whole => Depths

ExportVec == Export /\ Whole => PrintT(ToJson([t |-> Tree, x |-> [j \in Layouts |-> BuildText(B(j), Tree)]]))
===============================================================================
