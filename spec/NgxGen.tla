-------------------------------- MODULE NgxGen --------------------------------
(* The generator: what the command arrays in a tree of C sources declare, and   *)
(* the table generated from them.  CFeed reads C source one character at a time *)
(* (comments, literals, preprocessor lines, line splices); Declared reads the   *)
(* command arrays off the tokens; GenTable puts files, filter and override      *)
(* together.                                                                    *)
EXTENDS NgxChars

-------------------------------------------------------------------------------
(* C tokens: [k |-> "id" | "str" | "chr" | "p", v |-> text].                     *)
CModes == {"code", "id", "str", "stre", "chr", "chre", "slash", "lc", "lce", "lcr", "bc", "bcs", "bs", "bsr"}
CInit == [m |-> "code", t |-> "", toks |-> <<>>, bol |-> TRUE, pp |-> FALSE, pv |-> "", bad |-> FALSE]

Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
IdChars == {Ch(Letters, i) : i \in 1 .. Len(Letters)}
CSpace == {" ", "\t", "\r", "\f"}

\* a preprocessor line is one token; its value tells whether it could be taken for more than that
CEmit(s, k, v) == IF s.pp THEN [s EXCEPT !.t = "", !.bol = FALSE, !.pv = IF (k = "id" /\ v \in {"ngx_string", "ngx_command_t"}) \/ (k = "p" /\ v = ";") THEN "code" ELSE @]
                  ELSE [s EXCEPT !.t = "", !.bol = FALSE, !.toks = Append(@, [k |-> k, v |-> v])]

LineEnd(s) == [s EXCEPT !.m = "code", !.bol = TRUE, !.pp = FALSE, !.pv = "", !.toks = IF s.pp THEN Append(@, [k |-> "pp", v |-> s.pv]) ELSE @]

\* a character outside of words, literals and comments
CCode(s, c) ==
    CASE c = EOL -> LineEnd(s)
      [] c \in CSpace -> [s EXCEPT !.m = "code"]
      [] c = BS -> [s EXCEPT !.m = "bs"]
      [] c = "/" -> [s EXCEPT !.m = "slash"]
      [] c = DQ -> [s EXCEPT !.m = "str", !.t = ""]
      [] c = SQ -> [s EXCEPT !.m = "chr", !.t = ""]
      [] c = "#" /\ s.bol -> [s EXCEPT !.m = "code", !.pp = TRUE, !.bol = FALSE]
      [] c \in IdChars -> [s EXCEPT !.m = "id", !.t = c]
      [] OTHER -> [CEmit(s, "p", c) EXCEPT !.m = "code"]

CFeed1(s, c) ==
    CASE s.m = "code" -> CCode(s, c)
      [] s.m = "id" -> IF c \in IdChars THEN [s EXCEPT !.t = @ \o c]
                       ELSE CCode([CEmit(s, "id", s.t) EXCEPT !.m = "code"], c)
      [] s.m = "str" -> IF c = DQ THEN [CEmit(s, "str", s.t) EXCEPT !.m = "code"]
                        ELSE IF c = BS THEN [s EXCEPT !.m = "stre", !.t = @ \o c]
                        ELSE IF c = EOL THEN CCode([s EXCEPT !.bad = @ \/ ~s.pp, !.m = "code"], c)  \* a directive line may hold any text
                        ELSE [s EXCEPT !.t = @ \o c]
      [] s.m = "stre" -> [s EXCEPT !.m = "str", !.t = @ \o c, !.bad = @ \/ c = EOL]
      [] s.m = "chr" -> IF c = SQ THEN [CEmit(s, "chr", s.t) EXCEPT !.m = "code"]
                        ELSE IF c = BS THEN [s EXCEPT !.m = "chre", !.t = @ \o c]
                        ELSE IF c = EOL THEN CCode([s EXCEPT !.bad = @ \/ ~s.pp, !.m = "code"], c)
                        ELSE [s EXCEPT !.t = @ \o c]
      [] s.m = "chre" -> [s EXCEPT !.m = "chr", !.t = @ \o c, !.bad = @ \/ c = EOL]
      [] s.m = "slash" -> IF c = "/" THEN [s EXCEPT !.m = "lc"]
                          ELSE IF c = "*" THEN [s EXCEPT !.m = "bc"]
                          ELSE CCode([CEmit(s, "p", "/") EXCEPT !.m = "code"], c)
      [] s.m = "lc" -> IF c = EOL THEN CCode([s EXCEPT !.m = "code"], c) ELSE IF c = BS THEN [s EXCEPT !.m = "lce"] ELSE s
      \* a line comment goes on after a backslash at the end of the line
      [] s.m = "lce" -> IF c = CR THEN [s EXCEPT !.m = "lcr"] ELSE IF c = BS THEN s ELSE [s EXCEPT !.m = "lc"]
      [] s.m = "lcr" -> IF c = BS THEN [s EXCEPT !.m = "lce"] ELSE [s EXCEPT !.m = "lc"]
      [] s.m = "bc" -> IF c = "*" THEN [s EXCEPT !.m = "bcs"] ELSE s
      [] s.m = "bcs" -> IF c = "/" THEN [s EXCEPT !.m = "code"] ELSE IF c = "*" THEN s ELSE [s EXCEPT !.m = "bc"]
      \* a backslash outside of literals: joins the lines of a directive, and is nowhere else
      [] s.m = "bs" -> IF c = EOL THEN [s EXCEPT !.m = "code", !.bad = @ \/ ~s.pp] ELSE IF c = CR THEN [s EXCEPT !.m = "bsr"]
                       ELSE CCode([s EXCEPT !.m = "code", !.bad = @ \/ ~s.pp], c)
      [] s.m = "bsr" -> IF c = EOL THEN [s EXCEPT !.m = "code", !.bad = @ \/ ~s.pp] ELSE CCode([s EXCEPT !.m = "code", !.bad = @ \/ ~s.pp], c)

CFeed(s, x) == FoldChars(CFeed1, s, x)
\* the tokens of a whole text, and whether it is one this specification speaks about
CEnd(s) == LET e0 == IF s.m = "id" THEN [CEmit(s, "id", s.t) EXCEPT !.m = "code"] ELSE IF s.m = "slash" THEN [CEmit(s, "p", "/") EXCEPT !.m = "code"] ELSE s
               e == IF e0.pp THEN [LineEnd(e0) EXCEPT !.m = e0.m] ELSE e0
           IN [e EXCEPT !.bad = @ \/ e.m \in {"str", "stre", "chr", "chre", "bc", "bcs", "bs", "bsr"}]
CTokens(x) == CEnd(CFeed(CInit, x))

-------------------------------------------------------------------------------
(* Command arrays:  ngx_command_t NAME [ ] = { ENTRIES } ;                      *)
(* entries:         { ngx_string ( "name" ) , MASK | MASK ... , ... } ,          *)
Is(ts, i, k, v) == i <= Len(ts) /\ ts[i].k = k /\ ts[i].v = v
P(ts, i, v) == Is(ts, i, "p", v)
IsStr(ts, i) == i <= Len(ts) /\ ts[i].k = "str"

\* the masks of an entry from i: [ms, at, ok], `at` at the comma behind them
RECURSIVE ReadMask(_, _, _)
ReadMask(ts, i, ms) ==
    IF i + 1 > Len(ts) \/ ts[i].k # "id" THEN [ms |-> ms, at |-> i, ok |-> FALSE]
    ELSE IF P(ts, i + 1, "|") THEN ReadMask(ts, i + 2, Append(ms, ts[i].v))
    ELSE [ms |-> Append(ms, ts[i].v), at |-> i + 1, ok |-> P(ts, i + 1, ",")]

\* the place behind the brace that closes the one before i
RECURSIVE SkipBraces(_, _, _)
SkipBraces(ts, i, d) ==
    IF d = 0 \/ i > Len(ts) THEN i
    ELSE SkipBraces(ts, i + 1, IF P(ts, i, "{") THEN d + 1 ELSE IF P(ts, i, "}") THEN d - 1 ELSE d)

\* tokens an entry may not have among its further fields
Plain(ts, i, j) == \A k \in i .. j : ~(ts[k].k = "id" /\ ts[k].v \in {"ngx_string", "ngx_command_t"}) /\ ~(P(ts, k, "{")) /\ ~Is(ts, k, "pp", "code") /\ ~(ts[k].k = "str" /\ HasChar(ts[k].v, "}")) /\ ~(P(ts, k, ";"))

\* the entries of an array from i, which ends the array with "} ;" : [ds, at, ok]
RECURSIVE ReadEntries(_, _, _)
ReadEntries(ts, i, ds) ==
    IF i > Len(ts) THEN [ds |-> ds, at |-> i, ok |-> FALSE]
    ELSE IF P(ts, i, "}") THEN [ds |-> ds, at |-> i + 2, ok |-> P(ts, i + 1, ";")]
    ELSE IF P(ts, i, ",") \/ Is(ts, i, "id", "ngx_null_command") \/ Is(ts, i, "pp", "") THEN ReadEntries(ts, i + 1, ds)
    ELSE IF ~P(ts, i, "{") THEN [ds |-> ds, at |-> i, ok |-> FALSE]
    ELSE LET e == SkipBraces(ts, i + 1, 1) IN
         IF e > Len(ts) \/ ~P(ts, e - 1, "}") THEN [ds |-> ds, at |-> i, ok |-> FALSE]
         ELSE IF Is(ts, i + 1, "id", "ngx_null_string") THEN IF Plain(ts, i + 1, e - 2) THEN ReadEntries(ts, e, ds) ELSE [ds |-> ds, at |-> i, ok |-> FALSE]
         ELSE IF ~(Is(ts, i + 1, "id", "ngx_string") /\ P(ts, i + 2, "(") /\ IsStr(ts, i + 3) /\ P(ts, i + 4, ")") /\ P(ts, i + 5, ","))
              THEN [ds |-> ds, at |-> i, ok |-> FALSE]
         ELSE LET m == ReadMask(ts, i + 6, <<>>) IN
              IF ~m.ok \/ m.at >= e \/ ~Plain(ts, m.at, e - 2) THEN [ds |-> ds, at |-> i, ok |-> FALSE]
              ELSE ReadEntries(ts, e, Append(ds, [n |-> ts[i + 3].v, m |-> m.ms]))

RECURSIVE ReadArrays(_, _, _)
ReadArrays(ts, i, ds) ==
    IF i > Len(ts) THEN [ds |-> ds, ok |-> TRUE]
    ELSE IF Is(ts, i, "pp", "code") THEN [ds |-> ds, ok |-> FALSE]
    ELSE IF Is(ts, i, "id", "ngx_command_t") /\ (\E k \in i + 1 .. i + 5 : k <= Len(ts) /\ ts[k].k = "pp") THEN [ds |-> ds, ok |-> FALSE]
    ELSE IF ~Is(ts, i, "id", "ngx_command_t") \/ ~(i + 5 <= Len(ts) /\ ts[i + 1].k = "id" /\ P(ts, i + 2, "[")) THEN ReadArrays(ts, i + 1, ds)
    ELSE IF ~(P(ts, i + 3, "]") /\ P(ts, i + 4, "=") /\ P(ts, i + 5, "{")) THEN ReadArrays(ts, i + 1, ds)
    ELSE LET r == ReadEntries(ts, i + 6, ds) IN
         IF ~r.ok THEN [ds |-> r.ds, ok |-> FALSE] ELSE ReadArrays(ts, r.at, r.ds)

\* what one source declares: [ds: sequence of [n, m], ok: the source is in the domain]
OddName(n) == n = "" \/ HasAnyOf(n, {" ", "\t", BS}) \/ (HasChar(n, "}") /\ HasChar(n, ";"))
\* literals that hold what looks like a declaration are not looked into
OddText(t) == t.k \in {"str", "chr"} /\ (HasSub(t.v, "ngx_command_t") \/ HasSub(t.v, "ngx_string"))
DeclaredBy(e) == LET r == ReadArrays(e.toks, 1, <<>>) IN [ds |-> r.ds, ok |-> r.ok /\ ~e.bad /\ (\A i \in 1 .. Len(e.toks) : ~OddText(e.toks[i])) /\ \A i \in 1 .. Len(r.ds) : ~OddName(r.ds[i].n)]
Declared(x) == DeclaredBy(CTokens(x))

-------------------------------------------------------------------------------
(* Names of the masks in this package.                                          *)
MaskPairs == << <<"NGX_MAIL_MAIN_CONF", "ngxMailMainConf">>, <<"NGX_STREAM_MAIN_CONF", "ngxStreamMainConf">>, <<"NGX_CONF_TAKE1", "ngxConfTake1">>,
    <<"NGX_STREAM_UPS_CONF", "ngxStreamUpsConf">>, <<"NGX_HTTP_LIF_CONF", "ngxHTTPLifConf">>, <<"NGX_CONF_TAKE2", "ngxConfTake2">>, <<"NGX_HTTP_UPS_CONF", "ngxHTTPUpsConf">>,
    <<"NGX_CONF_TAKE23", "ngxConfTake23">>, <<"NGX_CONF_TAKE12", "ngxConfTake12">>, <<"NGX_HTTP_MAIN_CONF", "ngxHTTPMainConf">>, <<"NGX_HTTP_LMT_CONF", "ngxHTTPLmtConf">>,
    <<"NGX_CONF_TAKE1234", "ngxConfTake1234">>, <<"NGX_MAIL_SRV_CONF", "ngxMailSrvConf">>, <<"NGX_CONF_FLAG", "ngxConfFlag">>, <<"NGX_HTTP_SRV_CONF", "ngxHTTPSrvConf">>,
    <<"NGX_CONF_1MORE", "ngxConf1More">>, <<"NGX_ANY_CONF", "ngxAnyConf">>, <<"NGX_CONF_TAKE123", "ngxConfTake123">>, <<"NGX_MAIN_CONF", "ngxMainConf">>,
    <<"NGX_CONF_NOARGS", "ngxConfNoArgs">>, <<"NGX_CONF_2MORE", "ngxConf2More">>, <<"NGX_CONF_TAKE3", "ngxConfTake3">>, <<"NGX_HTTP_SIF_CONF", "ngxHTTPSifConf">>,
    <<"NGX_EVENT_CONF", "ngxEventConf">>, <<"NGX_CONF_BLOCK", "ngxConfBlock">>, <<"NGX_HTTP_LOC_CONF", "ngxHTTPLocConf">>, <<"NGX_STREAM_SRV_CONF", "ngxStreamSrvConf">>,
    <<"NGX_DIRECT_CONF", "ngxDirectConf">>, <<"NGX_CONF_TAKE13", "ngxConfTake13">>, <<"NGX_CONF_ANY", "ngxConfAny">>, <<"NGX_CONF_TAKE4", "ngxConfTake4">>,
    <<"NGX_CONF_TAKE5", "ngxConfTake5">>, <<"NGX_CONF_TAKE6", "ngxConfTake6">>, <<"NGX_CONF_TAKE7", "ngxConfTake7">> >>
CNames == {MaskPairs[i][1] : i \in 1 .. Len(MaskPairs)}
GoName == [c \in CNames |-> LET i == CHOOSE j \in 1 .. Len(MaskPairs) : MaskPairs[j][1] = c IN MaskPairs[i][2]]

-------------------------------------------------------------------------------
(* The tree: files [n |-> path, x |-> text, k |-> kind], walked in the order of *)
(* the names in each directory.                                                 *)
IsSource(n) == HasSuffix(n, ".c") \/ HasSuffix(n, ".cpp")
RECURSIVE PartsLess(_, _)
PartsLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                   ELSE IF a[1] = b[1] THEN PartsLess(Tail(a), Tail(b)) ELSE StrLess(a[1], b[1])
WalkLess(a, b) == PartsLess(SplitAt(a.n, "/"), SplitAt(b.n, "/"))
\* `at` is the path the generator is given, "" for the whole tree
Walked(files, at) == SortSeq(SelectSeq(files, LAMBDA f : IsSource(f.n) /\ (at = "" \/ f.n = at \/ HasPrefix(f.n, at \o "/"))), WalkLess)

\* c: [files, at, filter, hf, over, ho]; filter a sequence of names, over of [d, m]
Overridden(c, d) == \E i \in 1 .. Len(c.over) : c.over[i].d = d
OverrideOf(c, d) == c.over[CHOOSE i \in 1 .. Len(c.over) : c.over[i].d = d /\ \A j \in i + 1 .. Len(c.over) : c.over[j].d # d].m
Filtered(c, d) == \E i \in 1 .. Len(c.filter) : c.filter[i] = d

All(c) == FoldLeft(LAMBDA a, f : [ds |-> a.ds \o f.ds, ok |-> a.ok /\ f.ok], [ds |-> <<>>, ok |-> TRUE],
                   LET w == Walked(c.files, c.at) IN [i \in 1 .. Len(w) |-> Declared(w[i].x)])

\* the table: a sequence of [d, m], m a sequence of sets of names; sorted by name
TableOf(c, ds) ==
    LET names == SortStrs(SetToSeq({ds[i].n : i \in 1 .. Len(ds)} \ {c.filter[i] : i \in 1 .. Len(c.filter)}))
        masks(d) == IF Overridden(c, d) THEN OverrideOf(c, d)
                    ELSE LET mine == SelectSeq(ds, LAMBDA x : x.n = d)
                         IN [i \in 1 .. Len(mine) |-> [j \in 1 .. Len(mine[i].m) |-> GoName[mine[i].m[j]]]]
    IN [i \in 1 .. Len(names) |-> [d |-> names[i], m |-> LET ms == masks(names[i]) IN [j \in 1 .. Len(ms) |-> ToSet(ms[j])]]]

\* a source that cannot be read, or a directory that cannot be listed
Gone(c) == \/ LET w == Walked(c.files, c.at) IN \E i \in 1 .. Len(w) : w[i].k = "gone"
           \/ \E i \in 1 .. Len(c.files) : c.files[i].k = "deep" /\ (c.at = "" \/ c.files[i].n = c.at \/ HasPrefix(c.files[i].n, c.at \o "/"))
\* "table" with the table, "error", or "outside" of what is specified
Generated(c) ==
    LET a == All(c) IN
    IF Gone(c) THEN [k |-> "error", t |-> <<>>]
    ELSE IF ~a.ok THEN [k |-> "outside", t |-> <<>>]
    ELSE IF \E i \in 1 .. Len(a.ds) : \E j \in 1 .. Len(a.ds[i].m) : a.ds[i].m[j] \notin CNames THEN [k |-> "error", t |-> <<>>]
    ELSE IF a.ds = <<>> THEN [k |-> "error", t |-> <<>>]
    ELSE [k |-> "table", t |-> TableOf(c, a.ds)]

-------------------------------------------------------------------------------
(* The command line: options of a config file, replaced by those given as flags. *)
\* an override as a flag: directive:mask|mask,mask
FlagItem(x) ==
    LET i == IndexOf(x, ":")
        d == TrimRight(TrimLeft(SubSeq(x, 1, i - 1)))
        r == TrimRight(TrimLeft(DropFirst(x, i)))
        ls == [k \in 1 .. Len(SplitAt(r, ",")) |-> LET ps == SplitAt(SplitAt(r, ",")[k], "|") IN [j \in 1 .. Len(ps) |-> TrimRight(TrimLeft(ps[j]))]]
    IN [ok |-> i > 0 /\ d # "" /\ r # "" /\ \A k \in 1 .. Len(ls) : \A j \in 1 .. Len(ls[k]) : ls[k][j] # "", d |-> d, m |-> ls]

\* c.cli: [conf: options of the file or none, flags]; what the command does
Effective(c) ==
    LET f == c.flags  g == c.conf
        items == [i \in 1 .. Len(f.over) |-> FlagItem(f.over[i])]
        name(a, b) == IF a # "" THEN a ELSE b
    IN [ files |-> c.files, at |-> c.at,
         bad |-> (\E i \in 1 .. Len(items) : ~items[i].ok) \/ name(f.map, g.map) = "" \/ name(f.fn, g.fn) = "" \/ c.nosrc \/ c.badconf,
         filter |-> IF f.filter # <<>> THEN f.filter ELSE g.filter,
         over |-> IF f.over # <<>> THEN [i \in 1 .. Len(items) |-> [d |-> items[i].d, m |-> items[i].m]] ELSE g.over ]
Commanded(c) == LET e == Effective(c) IN IF e.bad THEN [k |-> "error", t |-> <<>>] ELSE Generated(e)
===============================================================================
