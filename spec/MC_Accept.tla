------------------------------ MODULE MC_Accept ------------------------------
(* Acceptance of one directive by what is declared for it: one more use is     *)
(* declared per step.  The questions asked (where the directive stands, its     *)
(* arguments, its end, the options) are the initial states.                     *)
EXTENDS NgxValidate, IOUtils, TLC

CONSTANTS MaxUses, Export
Setup == JsonDeserialize(IOEnv.SETUP)
\* [uses: first uses, more: further uses (sequences of flags), ctxs: block paths,
\*  args: argument lists, terms, opts: option sets]
D == "d"

VARIABLES us, q
vars == <<us, q>>
Queries == {[c |-> ci, a |-> ai, t |-> ti] : ci \in 1 .. Len(Setup.ctxs), ai \in 1 .. Len(Setup.args), ti \in 1 .. Len(Setup.terms)}
Pool(k) == IF k = 0 THEN Setup.uses ELSE Setup.more

Init == us = <<>> /\ q \in Queries
Next == /\ Len(us) < MaxUses
        /\ \E i \in 1 .. Len(Pool(Len(us))) : us' = Append(us, Pool(Len(us))[i])
        /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

\* the block context of a path of blocks opened one in the other
CtxOf(path) == FoldLeft(LAMBDA a, b : EnterCtx(b, a), <<>>, path)
Ctx  == CtxOf(Setup.ctxs[q.c])
Args == Setup.args[q.a]
Term == Setup.terms[q.t]

Src(uses) == IF uses = <<>> THEN <<>> ELSE << [n |-> D, m |-> uses] >>
V(sources, o) == Verdict(sources, o, Ctx, D, Args, Term)
One(o) == V(<<Src(us)>>, o)
Accepts(o) == One(o) = ""
OptsIdx == 1 .. Len(Setup.opts)

-------------------------------------------------------------------------------
\* the property's own wording of when a directive is accepted
CountFits(u) ==
    LET n == Len(Args) IN
    \/ ToString(n) \in u /\ n <= 7
    \/ "any" \in u
    \/ "1+" \in u /\ n >= 1
    \/ "2+" \in u /\ n >= 2
    \/ "flag" \in u /\ n = 1 /\ Args[1] \in {"on", "On", "oN", "ON", "off", "Off", "oFf", "ofF", "OFf", "oFF", "OfF", "OFF"}
EndOK(u)  == IF "block" \in u THEN Term = "{" ELSE Term = ";"
Paren(u)  == "expr" \in u => ExprFits(Args)
Admits(u, o) ==
    /\ (o.skipctx \/ CtxName(Ctx) \in u)
    /\ (o.skipargs \/ (CountFits(u) /\ EndOK(u) /\ Paren(u)))
Declared(o) ==
    /\ Term # "}"
    /\ \/ us = <<>> /\ ~o.strict
       \/ us # <<>> /\ ~KnownCtx(Ctx)
       \/ us # <<>> /\ o.skipctx /\ o.skipargs
       \/ us # <<>> /\ KnownCtx(Ctx) /\ \E i \in 1 .. Len(us) : Admits(AsUse(us[i]), o)
AcceptIffDeclared == \A k \in OptsIdx : Accepts(Setup.opts[k]) = Declared(Setup.opts[k])

\* each option removes (or adds) only its check
Without(o, f) == CASE f = "skipctx" -> [o EXCEPT !.skipctx = FALSE]
                   [] f = "skipargs" -> [o EXCEPT !.skipargs = FALSE]
                   [] f = "strict" -> [o EXCEPT !.strict = TRUE]
OptionsMonotone == \A k \in OptsIdx : \A f \in {"skipctx", "skipargs", "strict"} :
                      Accepts(Without(Setup.opts[k], f)) => Accepts(Setup.opts[k])
StrictOnlyUnknown == \A k \in OptsIdx :
    LET o == Setup.opts[k] IN us # <<>> => One([o EXCEPT !.strict = TRUE]) = One([o EXCEPT !.strict = FALSE])

\* a further use never makes a declared directive unacceptable
MoreUsesAcceptMore == [][\A k \in OptsIdx : us # <<>> /\ Accepts(Setup.opts[k]) =>
                            V(<<Src(us')>>, Setup.opts[k]) = ""]_vars

\* sources are alternatives, in any order
Split == IF Len(us) < 2 THEN <<Src(us)>> ELSE [i \in 1 .. Len(us) |-> Src(<<us[i]>>)]
Rev(xs) == [i \in 1 .. Len(xs) |-> xs[Len(xs) + 1 - i]]
SourcesAreAlternatives == \A k \in OptsIdx :
    LET o == Setup.opts[k] IN
    /\ V(Split, o) = One(o)
    /\ (V(Rev(Split), o) = "") = Accepts(o)
    /\ V(<< <<>> >> \o Split, o) = One(o)
    /\ us # <<>> => V(Split \o Split, o) = One(o)

\* the reason given is one of the known ones and names the directive
Reasons == {WhatUnknown(D), WhatContext(D), WhatExpr(D), WhatNoBlock(D), WhatNoEnd(D), WhatArgs(D)}
           \cup {WhatFlag(Setup.args[i][1], D) : i \in {j \in 1 .. Len(Setup.args) : Len(Setup.args[j]) = 1}}
ReasonKnown == \A k \in OptsIdx : One(Setup.opts[k]) \in Reasons \cup {""}

Vec == [us |-> us, q |-> <<q.c, q.a, q.t>>, w |-> [k \in OptsIdx |-> One(Setup.opts[k])],
        r |-> [k \in OptsIdx |-> V(Rev(Split), Setup.opts[k])]]
ExportVec == Export => PrintT(ToJson(Vec))
===============================================================================
