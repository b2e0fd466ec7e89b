----------------------------- MODULE NgxValidate -----------------------------
(* When is a directive accepted?  A source declares uses of a directive: a use *)
(* is a set of flags naming the blocks it may stand in and the shape of its    *)
(* arguments.  A directive is accepted iff some declared use admits it.        *)
EXTENDS NgxChars

\* block contexts whose rules are known, by the directives that opened them
CtxTable == <<
    << <<>>,                                    "main"       >>,
    << <<"events">>,                            "events"     >>,
    << <<"mail">>,                              "mail"       >>,
    << <<"mail", "server">>,                    "mail.srv"   >>,
    << <<"stream">>,                            "stream"     >>,
    << <<"stream", "server">>,                  "stream.srv" >>,
    << <<"stream", "upstream">>,                "stream.ups" >>,
    << <<"http">>,                              "http"       >>,
    << <<"http", "server">>,                    "http.srv"   >>,
    << <<"http", "location">>,                  "http.loc"   >>,
    << <<"http", "upstream">>,                  "http.ups"   >>,
    << <<"http", "server", "if">>,              "http.sif"   >>,
    << <<"http", "location", "if">>,            "http.lif"   >>,
    << <<"http", "location", "limit_except">>,  "http.lmt"   >>,
    << <<"mgmt">>,                              "mgmt"       >>,
    << <<"http", "oidc_provider">>,             "http.oidc"  >> >>

CtxNames == {CtxTable[i][2] : i \in 1 .. Len(CtxTable)}
CtxIdx(ctx) == {i \in 1 .. Len(CtxTable) : CtxTable[i][1] = ctx}
KnownCtx(ctx) == CtxIdx(ctx) # {}
CtxName(ctx)  == CtxTable[CHOOSE i \in CtxIdx(ctx) : TRUE][2]

\* the block context inside directive d standing in ctx; locations do not nest
EnterCtx(d, ctx) ==
    IF Len(ctx) > 0 /\ ctx[1] = "http" /\ d = "location" THEN <<"http", "location">>
    ELSE Append(ctx, IF d = "" THEN "\"\"" ELSE d)  \* a name to report; such a block's rules are not known
LastBlock(ctx) == IF ctx = <<>> THEN "main" ELSE ctx[Len(ctx)]

\* argument shapes
ArityFlags == <<"0", "1", "2", "3", "4", "5", "6", "7">>
IsFlagValue(v) == ToLowerStr(v) \in {"on", "off"}

ArgsFit(use, args) ==
    \/ Len(args) <= 7 /\ ArityFlags[Len(args) + 1] \in use
    \/ "flag" \in use /\ Len(args) = 1 /\ IsFlagValue(args[1])
    \/ "any" \in use
    \/ "1+" \in use /\ Len(args) >= 1
    \/ "2+" \in use /\ Len(args) >= 2

\* `( ... )` around something that is not just whitespace
IsBlank(x) == TrimLeft(x) = ""
ExprFits(args) ==
    LET n == Len(args) IN
    /\ n > 0
    /\ HasPrefix(args[1], "(") /\ HasSuffix(args[n], ")")
    /\ \/ n = 1 /\ Len(args[1]) > 2 /\ ~IsBlank(DropFirst(DropLast(args[1], 1), 1))
       \/ n = 2 /\ (~IsBlank(DropFirst(args[1], 1)) \/ ~IsBlank(DropLast(args[n], 1)))
       \/ n > 2

EndFits(use, term) == IF "block" \in use THEN term = "{" ELSE term = ";"

\* the flags an `use` list of the case files stands for
AsUse(fl) == {fl[i] : i \in 1 .. Len(fl)}

\* all declared uses of d in the given sources, in order; a source is a
\* sequence of entries [n |-> name, m |-> sequence of flag sequences]
EntriesOf(src, d) == SelectSeq(src, LAMBDA x : x.n = d)
Known(sources, d) == \E i \in 1 .. Len(sources) : \E j \in 1 .. Len(sources[i]) : sources[i][j].n = d
Uses(sources, d) ==
    FoldLeft(LAMBDA a, i :
               LET es == EntriesOf(sources[i], d)
               IN IF es = <<>> THEN a ELSE a \o [k \in 1 .. Len(es[1].m) |-> AsUse(es[1].m[k])],
             <<>>, [i \in 1 .. Len(sources) |-> i])

WhatUnknown(d)   == "unknown directive \"" \o d \o "\""
WhatContext(d)   == "\"" \o d \o "\" directive is not allowed here"
WhatExpr(d)      == "directive \"" \o d \o "\"'s is not enclosed in parentheses"
WhatNoBlock(d)   == "directive \"" \o d \o "\" has no opening \"{\""
WhatNoEnd(d)     == "directive \"" \o d \o "\" is not terminated by \";\""
WhatFlag(v, d)   == "invalid value \"" \o v \o "\" in \"" \o d \o "\" directive, it must be \"on\" or \"off\""
WhatArgs(d)      == "invalid number of arguments in \"" \o d \o "\" directive"

\* "" if the use admits the directive, else why not
UseError(use, d, args, term) ==
    IF "expr" \in use /\ ~ExprFits(args) THEN WhatExpr(d)
    ELSE IF "block" \in use /\ term # "{" THEN WhatNoBlock(d)
    ELSE IF "block" \notin use /\ term # ";" THEN WhatNoEnd(d)
    ELSE IF ArgsFit(use, args) THEN ""
    ELSE IF "flag" \in use /\ Len(args) = 1 THEN WhatFlag(args[1], d)
    ELSE WhatArgs(d)

\* "" if accepted, else the reason; opt: strict, skipctx, skipargs
Analyze(sources, opt, ctx, d, args, term) ==
    LET known == Known(sources, d) IN
    IF opt.strict /\ ~known THEN WhatUnknown(d)
    ELSE IF ~known \/ ~KnownCtx(ctx) THEN ""
    ELSE LET uses == Uses(sources, d)
             here == IF opt.skipctx THEN uses ELSE SelectSeq(uses, LAMBDA u : CtxName(ctx) \in u)
         IN IF here = <<>> /\ ~opt.skipctx THEN WhatContext(d)
            ELSE IF opt.skipargs THEN ""
            ELSE IF \E i \in 1 .. Len(here) : UseError(here[i], d, args, term) = "" THEN ""
            ELSE UseError(here[Len(here)], d, args, term)

\* a directive that is not followed by `;` or a block is never accepted
Verdict(sources, opt, ctx, d, args, term) ==
    LET w == Analyze(sources, opt, ctx, d, args, term)
    IN IF w # "" THEN w ELSE IF term = "}" THEN WhatNoEnd(d) ELSE ""

-------------------------------------------------------------------------------
\* map-like blocks: their bodies hold parameters, not directives
MapTable == <<
    [n |-> "charset_map",   def |-> {"1"},  special |-> <<>>],
    [n |-> "geo",           def |-> {"1"},  special |-> << <<"ranges", {"0"}>>, <<"proxy_recursive", {"0"}>> >>],
    [n |-> "map",           def |-> {"1"},  special |-> << <<"volatile", {"0"}>>, <<"hostnames", {"0"}>> >>],
    [n |-> "match",         def |-> {"1+"}, special |-> <<>>],
    [n |-> "types",         def |-> {"1+"}, special |-> <<>>],
    [n |-> "split_clients", def |-> {"1"},  special |-> <<>>],
    [n |-> "geoip2",        def |-> {"1+"}, special |-> << <<"auto_reload", {"1"}>> >>],
    [n |-> "otel_exporter", def |-> {"1"},  special |-> <<>>] >>

MapBlocks == {MapTable[i].n : i \in 1 .. Len(MapTable)}
InMap(ctx) == ctx # <<>> /\ ctx[Len(ctx)] \in MapBlocks

ParamUse(block, name) ==
    LET row == MapTable[CHOOSE i \in 1 .. Len(MapTable) : MapTable[i].n = block]
        sp  == {i \in 1 .. Len(row.special) : row.special[i][1] = name}
    IN IF sp = {} THEN row.def ELSE row.special[CHOOSE i \in sp : TRUE][2]

ParamVerdict(block, name, args, term) ==
    IF term # ";" THEN "unexpected \"" \o term \o "\""
    ELSE IF ArgsFit(ParamUse(block, name), args) THEN "" ELSE "invalid number of parameters"
===============================================================================
