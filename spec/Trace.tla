-------------------------------- MODULE Trace --------------------------------
(* Trace validation: judges behaviours recorded from the implementation.       *)
(* Each case is one behaviour: `c` is what was asked, `o` what was observed.    *)
(* The single step of behaviour k replays it on the specification and compares *)
(* the part of the outcome that the property IOEnv.PROP speaks about.          *)
EXTENDS NgxJson, NgxHist, NgxGen, NgxView, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP

VARIABLES k, v
vars == <<k, v>>

Ok == "ok"
Has(r, f) == f \in DOMAIN r

-------------------------------------------------------------------------------
\* what the specification says, in the shape the driver records
RecErrs(c, errs) == [i \in 1 .. Len(errs) |->
    [ file |-> errs[i].file, l |-> errs[i].err.l, err |-> errs[i].err,
      cb |-> IF c.opt.cb THEN "cb" \o ToString(i) \o ":" \o errs[i].err.t ELSE "" ]]
RecCfg(g) == [g EXCEPT !.errs = [i \in 1 .. Len(g.errs) |-> [l |-> g.errs[i].l, err |-> g.errs[i]]]]
RecPayload(c, p) == [ st |-> p.st, errs |-> RecErrs(c, p.errs),
                      config |-> [i \in 1 .. Len(p.config) |-> RecCfg(p.config[i])] ]
Outcome(c) == LET r == ParseAll(c) IN [ret |-> r.ret, p |-> RecPayload(c, r.payload)]
ObsOut(o) == [ret |-> o.ret, p |-> o.p]

\* erasing lines everywhere
NoLineErr(e) == [e EXCEPT !.l = 0, !.t = ""]
NoLineCfg(g) == [g EXCEPT !.parsed = EraseLines(@),
                          !.errs = [i \in 1 .. Len(@) |-> [l |-> 0, err |-> NoLineErr(@[i].err)]]]
NoLinePayload(p) ==
    [p EXCEPT !.errs = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.l = 0, !.err = NoLineErr(@), !.cb = ""]],
              !.config = [i \in 1 .. Len(@) |-> NoLineCfg(@[i])]]
NoLines(r) == [ret |-> [i \in 1 .. Len(r.ret) |-> NoLineErr(r.ret[i])], p |-> NoLinePayload(r.p)]

\* trees only: per config, the file and its directives without lines and comments
Trees(r) == [i \in 1 .. Len(r.p.config) |-> [file |-> r.p.config[i].file, parsed |-> NoComments(EraseLines(r.p.config[i].parsed))]]
Succeeds(r) == r.ret = <<>> /\ r.p.st = "ok"

Same(a, b, why) == IF a = b THEN Ok ELSE why

-------------------------------------------------------------------------------
\* C01, C02: token streams
TokNoLine(t) == [v |-> t.v, q |-> t.q, e |-> t.e # ""]
ToksNoLine(ts) == [i \in 1 .. Len(ts) |-> TokNoLine(ts[i])]
WantToks(c) == LexAll(c.x, IF c.lua THEN LuaNames ELSE {}, c.fail)
WantToksN(c) == [i \in 1 .. Len(c.xs) |-> LexAll(c.xs[i], IF c.lua THEN LuaNames ELSE {}, "")]

VLex(c, o) ==
    IF c.op = "lexn" THEN Same([i \in 1 .. Len(c.xs) |-> ToksNoLine(o.toksn[i])],
                               [i \in 1 .. Len(c.xs) |-> ToksNoLine(WantToksN(c)[i])], "tokens differ")
    ELSE Same(ToksNoLine(o.toks), ToksNoLine(WantToks(c)), "tokens differ")

LinesOf(got, want) ==
    IF ToksNoLine(got) # ToksNoLine(want) THEN Ok ELSE Same(got, want, "token lines differ")
VLine(c, o) ==
    IF c.op = "lex" THEN LinesOf(o.toks, WantToks(c))
    ELSE IF c.op = "lexn"
    THEN LET w == WantToksN(c) IN
         IF \A i \in 1 .. Len(c.xs) : LinesOf(o.toksn[i], w[i]) = Ok THEN Ok ELSE "token lines differ"
    ELSE LET w == Outcome(c) IN
         IF NoLines(ObsOut(o)) # NoLines(w) THEN Ok ELSE Same(ObsOut(o), w, "lines differ")

\* C03: trees of accepted texts; unterminated texts are not successes
VTree(c, o) ==
    LET w == Outcome(c) g == ObsOut(o) IN
    IF Succeeds(w) THEN IF ~Succeeds(g) THEN "a text whose directives are all accepted fails"
                        ELSE Same(Trees(g), Trees(w), "the tree differs")
    ELSE IF Succeeds(g) THEN "an unterminated or invalid text is reported as parsed successfully" ELSE Ok

\* C04, C05: what is accepted and how rejections are reported
ErrsOf(r) == [ret |-> r.ret, errs |-> r.p.errs, st |-> r.p.st]
VAccept(c, o) ==
    LET w == Outcome(c) g == ObsOut(o) IN
    IF Succeeds(w) # Succeeds(g) THEN "acceptance differs" ELSE Same(ErrsOf(g), ErrsOf(w), "the reports differ")
VAcceptOnly(c, o) == Same(Succeeds(ObsOut(o)), Succeeds(Outcome(c)), "acceptance differs")

\* everything but lines; everything
VNoLines(c, o) == Same(NoLines(ObsOut(o)), NoLines(Outcome(c)), "the outcome differs")
VFull(c, o) == Same(ObsOut(o), Outcome(c), "the outcome differs")

\* C06, C07: the whole outcome but for the lines
\* C07: and the callback was called once for each error, in order, its result kept with it
VCollect(c, o) ==
    LET w == VNoLines(c, o)
        cb(i) == IF c.opt.cb THEN "cb" \o ToString(i) \o ":" \o o.p.errs[i].err.t ELSE ""
    IN IF w # Ok THEN w
       ELSE IF \E i \in 1 .. Len(o.p.errs) : o.p.errs[i].cb # cb(i) THEN "the error callback" ELSE Ok

\* C08: outs[1] collects errors, outs[2] stops on the first
VStop(o) ==
    LET a == o.outs[1] b == o.outs[2] IN
    IF a.ret # <<>> THEN IF b.ret # <<>> THEN Ok ELSE "stopping succeeds where collecting fails"
    ELSE IF a.p.errs = <<>> THEN IF b.ret # <<>> THEN "stopping fails where collecting reports nothing"
                                 ELSE Same(b.p, a.p, "the payloads differ without an error")
    ELSE IF b.ret = <<>> THEN "stopping succeeds where collecting reports an error"
    ELSE Same(b.ret[1], a.p.errs[1].err, "stopping does not report the first error")

\* C09: files, include lists, and how their contents are accepted
RECURSIVE IncludesIn(_)
IncludesIn(ds) == FoldLeft(LAMBDA a, x : a \o (IF x.d = "include" THEN << [a |-> x.a, i |-> x.i, hi |-> x.hi, m |-> x.m] >> ELSE <<>>)
                                           \o IncludesIn(x.b), <<>>, ds)
InclView(r) == [ ret |-> r.ret # <<>>,
                 config |-> [i \in 1 .. Len(r.p.config) |->
                    [ file |-> r.p.config[i].file, st |-> r.p.config[i].st, inc |-> IncludesIn(r.p.config[i].parsed),
                      errs |-> [j \in 1 .. Len(r.p.config[i].errs) |-> r.p.config[i].errs[j].err.w] ]] ]
VInclude(c, o) == Same(InclView(ObsOut(o)), InclView(Outcome(c)), "files or includes differ")

\* C10
CycleErr(r) == r.ret # <<>> /\ r.ret[1].w = CycleWhat
VCycle(c, o) ==
    LET w == Outcome(c) IN
    IF CycleErr(w) # CycleErr(ObsOut(o)) THEN IF CycleErr(w) THEN "an include cycle is not reported" ELSE "a cycle is reported where there is none"
    ELSE Ok

\* C11
VCombine(c, o) ==
    LET w == Combine(c.p) IN
    IF ~o.kept THEN "combining changed the original payload"
    ELSE IF w.ret # <<>> THEN IF o.ret # <<>> /\ o.nil THEN Ok ELSE "a payload that cannot be combined is not refused"
    ELSE IF o.ret # <<>> THEN "combining fails"
    ELSE Same(o.p, w.payload, "the combined payload differs")
RECURSIVE InFile(_, _)
InFile(ds, f) == [i \in 1 .. Len(ds) |-> [ds[i] EXCEPT !.f = f, !.b = InFile(@, f)]]
VCombineParse(c, o) ==
    LET a == o.outs[1] b == o.outs[2] IN
    IF a.ret # <<>> THEN IF b.ret # <<>> THEN Ok ELSE "a combining parse succeeds where parsing fails"
    ELSE LET named == [a.p EXCEPT !.config = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.parsed = InFile(@, a.p.config[i].file)]]]
             w == Combine(named)
         IN IF w.ret # <<>> THEN IF b.ret # <<>> THEN Ok ELSE "a combining parse does not fail"
            ELSE IF b.ret # <<>> THEN "a combining parse fails"
            ELSE Same(b.p, w.payload, "the combined payload differs")

\* C12: o.p was parsed, o.p2 is what its built texts parse to, o.p3 once more
Unfile(ds) == InFile(ds, "")
TreeOf(c, g) == NoComments(EraseLines(IF c.opt.combine THEN Unfile(g.parsed) ELSE g.parsed))
\* the lines of the header come back as comments, once more each time
HeaderComments == <<" This config was built from JSON using NGINX crossplane.",
                    " If you encounter any bugs please report them here:",
                    " https://github.com/nginxinc/crossplane/issues">>
HeaderBack(c) == c.build.header /\ c.opt.comments
StartsWithHeader(ds) == Len(ds) >= 3 /\ \A i \in 1 .. 3 : ds[i].d = "#" /\ ds[i].hc /\ ds[i].c = HeaderComments[i]
NoHeader(c, g) == IF HeaderBack(c) THEN [g EXCEPT !.parsed = SubSeq(@, 4, Len(@))] ELSE g
CommentTreeOf(c, g) == EraseLines(IF c.opt.combine THEN Unfile(g.parsed) ELSE g.parsed)
VRound(c, o) ==
    IF o.ret # <<>> \/ o.p.st # "ok" THEN Ok
    ELSE IF o.berr # "" THEN "building fails"
    ELSE IF o.ret2 # <<>> \/ o.p2.st # "ok" THEN "the built text does not parse"
    ELSE IF [i \in 1 .. Len(o.p.config) |-> o.p.config[i].file] # [i \in 1 .. Len(o.p2.config) |-> o.p2.config[i].file]
    THEN "the files differ"
    ELSE IF HeaderBack(c) /\ \E i \in 1 .. Len(o.p2.config) : ~StartsWithHeader(o.p2.config[i].parsed)
    THEN "the header is not a comment of the built text"
    ELSE IF \E i \in 1 .. Len(o.p.config) : TreeOf(c, o.p.config[i]) # TreeOf(c, o.p2.config[i])
    THEN "the built text parses to another tree"
    ELSE IF \E i \in 1 .. Len(o.p.config) : CommentText(o.p.config[i].parsed) # CommentText(NoHeader(c, o.p2.config[i]).parsed)
    THEN "the built text has other comments"
    ELSE IF o.ret3 # <<>> \/ o.p3.st # "ok" \/ Len(o.p3.config) # Len(o.p2.config)
         \/ \E i \in 1 .. Len(o.p2.config) : CommentTreeOf(c, o.p2.config[i]) # CommentTreeOf(c, NoHeader(c, o.p3.config[i]))
         \/ (~HeaderBack(c) /\ o.built2 # o.built3)
    THEN "building and parsing once more changes the config"
    ELSE Ok

\* C13
WordOK(t, w) == /\ t.v = w /\ t.e = ""
                /\ ~t.q => ~IsPunct(w) /\ ~HasPrefix(w, "#")
PlainTok(t, w) == t.v = w /\ t.e = "" /\ ~t.q
QuoteOK(w, r) ==
    /\ Len(r.at) = 4 /\ PlainTok(r.at[1], "x") /\ WordOK(r.at[2], w) /\ PlainTok(r.at[3], "y") /\ PlainTok(r.at[4], ";")
    /\ Len(r.nt) = 3 /\ WordOK(r.nt[1], w) /\ PlainTok(r.nt[2], "y") /\ PlainTok(r.nt[3], ";")
    /\ r.a = "x " \o r.e \o " y;"
    /\ IsPlain(w) => r.a = "x " \o w \o " y;" /\ r.n = w \o " y;"
    /\ w = "" => r.at[2].q /\ r.nt[1].q
VQuote(c, o) == IF \A i \in 1 .. Len(c.ws) : QuoteOK(c.ws[i], o.outs[i]) THEN Ok
                ELSE "a quoted word does not read back as itself"

\* C14
VBuild(c, o) == IF o.ret # <<>> THEN "building fails" ELSE Same(o.text, BuildText(c.build, c.parsed), "the built text differs")

Rooted(p) == IsAbs(p) \/ HasPrefix(p, "@")
PathIn(dir, n) == CleanPath(IF Rooted(n) THEN n ELSE (IF dir = "" THEN "@/cwd" ELSE IF Rooted(dir) THEN dir ELSE "@/cwd/" \o dir) \o "/" \o n)
Trapped(c, p) == \E i \in 1 .. Len(c.trap) :
                    LET t == CleanPath(c.trap[i].n) IN
                    IF c.trap[i].x = "file" THEN HasPrefix(p, t \o "/") ELSE p = t
\* the files after building the first n configs
FilesAfter(c, n) ==
    LET pre  == [i \in 1 .. Len(c.pre) |-> [n |-> CleanPath(c.pre[i].n), x |-> c.pre[i].x]]
             \o [i \in 1 .. Len(SelectSeq(c.trap, LAMBDA t : t.x = "file")) |-> [n |-> CleanPath(SelectSeq(c.trap, LAMBDA t : t.x = "file")[i].n), x |-> ""]]
        new  == [i \in 1 .. n |-> [n |-> PathIn(c.dir, c.p.config[i].file), x |-> FileText(c.build, c.p.config[i].parsed)]]
        all  == pre \o new
        ns   == {all[i].n : i \in 1 .. Len(all)}
    IN {[n |-> m, x |-> all[CHOOSE i \in 1 .. Len(all) : all[i].n = m /\ \A j \in i + 1 .. Len(all) : all[j].n # m].x] : m \in ns}
FirstTrapped(c) == LET bad == {i \in 1 .. Len(c.p.config) : Trapped(c, PathIn(c.dir, c.p.config[i].file))}
                   IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
SetOf(fs) == {fs[i] : i \in 1 .. Len(fs)}
VFiles(c, o) ==
    LET bad == FirstTrapped(c) IN
    IF ~o.kept THEN "building changed the payload"
    ELSE IF o.failed # (bad # 0) THEN IF o.failed THEN "writing the files fails" ELSE "a file that cannot be written is not reported"
    ELSE IF o.leaked > 0 THEN "a file was left open"
    ELSE IF bad = 0 THEN Same(SetOf(o.files), FilesAfter(c, Len(c.p.config)), "the files differ") ELSE Ok

\* building with a creator: each config is created, written and closed, in order
CreatorStep(a, e) ==
    IF a.bad # "" THEN a
    ELSE IF a.failed /\ ~(e.o = "close" /\ a.open # <<>>) THEN [a EXCEPT !.bad = "work goes on after a failure"]
    ELSE LET b == [a EXCEPT !.failed = @ \/ e.e] IN
         CASE e.o = "create" -> IF a.open # <<>> THEN [a EXCEPT !.bad = "a file is created before the last one is closed"]
                                ELSE IF e.e THEN b ELSE [b EXCEPT !.open = <<e.n>>, !.texts = Append(@, [n |-> e.n, x |-> ""])]
           [] e.o = "write"  -> IF a.open # <<e.n>> THEN [a EXCEPT !.bad = "a write to a file that is not open"]
                                ELSE IF e.e THEN b ELSE [b EXCEPT !.texts[Len(a.texts)].x = @ \o e.x]
           [] e.o = "close"  -> IF a.open # <<e.n>> THEN [a EXCEPT !.bad = "a close of a file that is not open"]
                                ELSE [b EXCEPT !.open = <<>>]
VInto(c, o) ==
    LET r == FoldLeft(CreatorStep, [open |-> <<>>, texts |-> <<>>, failed |-> FALSE, bad |-> ""], o.events)
        want == [i \in 1 .. Len(c.p.config) |-> [n |-> c.p.config[i].file, x |-> BuildText(c.build, c.p.config[i].parsed)]]
    IN IF ~o.kept THEN "building changed the payload"
       ELSE IF r.bad # "" THEN r.bad
       ELSE IF r.open # <<>> THEN "a created file is left open"
       ELSE IF r.failed # o.failed THEN IF r.failed THEN "a failure is not reported" ELSE "a failure is reported without one"
       ELSE IF r.failed THEN Ok
       ELSE IF r.texts # want THEN "the created files differ"
       ELSE IF \E j \in 1 .. 2 : o.strs[j] # [i \in 1 .. Len(want) |-> [n |-> want[i].n, x |-> want[i].x \o "\n"]]
       THEN "the strings creator's files differ" ELSE Ok
\* the part about faults only
VIntoFault(c, o) ==
    LET step(a, e) == CASE e.o = "create" -> IF e.e THEN [a EXCEPT !.failed = TRUE] ELSE [a EXCEPT !.open = Append(@, e.n)]
                        [] e.o = "write" -> [a EXCEPT !.failed = @ \/ e.e]
                        [] OTHER -> [a EXCEPT !.failed = @ \/ e.e, !.open = SelectSeq(@, LAMBDA n : n # e.n)]
        r == FoldLeft(step, [open |-> <<>>, failed |-> FALSE], o.events)
    IN IF r.failed /\ ~o.failed THEN "a failure is not reported" ELSE IF r.open # <<>> THEN "a created file is left open" ELSE Ok
VFilesFault(c, o) ==
    IF FirstTrapped(c) # 0 /\ ~o.failed THEN "a file that cannot be written is not reported"
    ELSE IF o.leaked > 0 THEN "a file was left open" ELSE Ok

\* C18: the events of a parse: opened readers, faults
IoStep(a, e) ==
    CASE e.e -> [a EXCEPT !.faults = Append(@, e)]
      [] e.o = "open"  -> [a EXCEPT !.open = Append(@, e.n)]
      [] e.o = "close" -> IF \E i \in 1 .. Len(a.open) : a.open[i] = e.n
                          THEN [a EXCEPT !.open = RemoveAt(@, CHOOSE i \in 1 .. Len(@) : @[i] = e.n)]
                          ELSE a
      [] OTHER -> a
\* the fault is in the call's error or in the payload, with its message (of a file that also is wrong otherwise: its failure)
ToldOf(o, f) ==
    \/ o.ret # <<>>
    \/ /\ o.p.st = "failed"
       /\ \/ \E i \in 1 .. Len(o.p.errs) : HasSub(o.p.errs[i].err.t, f.x) \/ HasSub(o.p.errs[i].err.w, f.x)
          \/ f.o = "read" /\ \E i \in 1 .. Len(o.p.errs) : o.p.errs[i].file = f.n
Healed(c) == [c EXCEPT !.files = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.k = "ok"]]]
VWatch(c, o) ==
    LET r == FoldLeft(IoStep, [open |-> <<>>, faults |-> <<>>], o.events) IN
    IF r.open # <<>> THEN "a file is left open: " \o r.open[1]
    ELSE IF o.left > 0 THEN "a goroutine is left running"
    ELSE IF o.late > 0 THEN "files are used after the call has returned"
    ELSE IF \E i \in 1 .. Len(r.faults) : ~ToldOf(o, r.faults[i]) THEN "a fault is not reported"
    ELSE IF o.ret = <<>> /\ \E i \in 1 .. Len(o.p.config) : HasFile(c, o.p.config[i].file)
                /\ FileOf(c, o.p.config[i].file).k = "read" /\ o.p.config[i].st # "failed"
    THEN "a file that could not be read completely is reported as parsed" ELSE Ok
VReal(c, o) ==
    IF o.leaked > 0 THEN "a file is left open"
    ELSE IF Succeeds(ObsOut(o)) /\ ~Succeeds(Outcome(c)) /\ Succeeds(Outcome(Healed(c))) THEN "a fault is not reported" ELSE Ok
VLexIO(c, o) ==
    IF o.left > 0 THEN "a goroutine is left running"
    ELSE IF c.fail # "" /\ \A i \in 1 .. Len(o.toks) : o.toks[i].e = "" THEN "a read error is not reported" ELSE Ok
VCombineIO(c, o) ==
    IF o.left > 0 THEN "a goroutine is left running"
    ELSE IF Combine(c.p).ret # <<>> /\ ~o.err THEN "an include that cannot be resolved is not reported" ELSE Ok
VIO(c, o) ==
    CASE c.op = "combinew" -> VCombineIO(c, o) [] c.op = "watch" -> VWatch(c, o) [] c.op = "realfs" -> VReal(c, o) [] c.op = "lexw" -> VLexIO(c, o)
      [] c.op = "files" -> VFilesFault(c, o) [] c.op = "into" -> VIntoFault(c, o)

\* C15
VJson(c, o) ==
    IF o.merr # "" THEN "marshalling fails: " \o o.merr
    ELSE IF ~FieldsUnique(o.j) \/ FromTagged(o.j) # PayloadJson(c.p) THEN "the JSON differs"
    ELSE IF o.uerr # "" THEN "unmarshalling fails: " \o o.uerr
    ELSE IF o.p # Decoded(c.p) THEN "the payload read back differs"
    ELSE IF ~o.again THEN "marshalling again gives other JSON"
    ELSE IF ~o.kept THEN "marshalling changed the payload" ELSE Ok

\* C17: all outcomes are the same
VAllSame(o) == IF \A i \in 2 .. Len(o.outs) : o.outs[i] = o.outs[1] THEN Ok ELSE "the outcomes differ"
\* results[i]: the different results call i had, alone and among others
VParallel(o) == IF \A i \in 1 .. Len(o.results) : Len(o.results[i]) = 1 THEN Ok ELSE "a call among others gives another result"

\* C21: outs[1] everything; outs[2] without comments; outs[3] ignoring c.ign; outs[4] single file
VFilter(c, o) ==
    LET a == o.outs[1] n == o.outs[2] IN
    IF (a.ret # <<>>) # (n.ret # <<>>) THEN "not parsing comments changes whether parsing succeeds"
    ELSE IF a.ret # <<>> THEN Same(n.ret, a.ret, "not parsing comments changes the error")
    ELSE Same(n.p, [a.p EXCEPT !.config = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.parsed = NoComments(@)]]],
              "not parsing comments does more than removing them")
RECURSIVE Unresolved(_)
Unresolved(ds) == [j \in 1 .. Len(ds) |-> [ds[j] EXCEPT !.i = <<>>, !.hi = FALSE, !.b = Unresolved(@)]]
VSingle(c, o) ==
    LET a == o.outs[1] s == o.outs[2] IN
    IF s.ret # <<>> THEN IF a.ret # <<>> THEN Ok ELSE "the single-file option makes parsing fail"
    ELSE IF Len(s.p.config) # 1 THEN "the single-file option gives more than one config"
    ELSE IF a.ret # <<>> THEN Ok
    ELSE IF a.p.config[1].st = "ok" /\ (s.p.st # "ok" \/ s.p.config[1].parsed # Unresolved(a.p.config[1].parsed))
    THEN "the single-file option changes other directives" ELSE Ok
\* outs[1] ignores, outs[2] is the same text with the ignored directives cut out
VIgnore(o) ==
    LET a == NoLines(o.outs[1]) b == NoLines(o.outs[2])
    IN Same(a, b, "ignoring directives is not the same as removing them")

\* C22: rows[i+1]: the values of all objects after step i, as numbers
TermRows(steps) == FoldLeft(LAMBDA a, s : Append(a, Apply(a[Len(a)], s)), <<Fixed>>, steps)
VHist(c, o) ==
    LET ts == TermRows(c.steps)
        n  == Len(ts)
        changed(i) == {h \in 1 .. Len(ts[i - 1]) : ts[i][h] = ts[i - 1][h] /\ o.rows[i][h] # o.rows[i - 1][h]}
        \* the objects as they came about, and as they are after a change
        made == {<<i, h>> \in (1 .. n) \X (1 .. Len(ts[n])) : h <= Len(ts[i]) /\ (i = 1 \/ h > Len(ts[i - 1]) \/ ts[i][h] # ts[i - 1][h])}
    IN IF \E i \in 2 .. n : changed(i) # {}
       THEN LET i == CHOOSE j \in 2 .. n : changed(j) # {} IN
            "step " \o ToString(i - 1) \o " (" \o c.steps[i - 1].o \o ") changes " \o ts[i][CHOOSE h \in changed(i) : TRUE]
       ELSE IF \E x, y \in made : ts[x[1]][x[2]] = ts[y[1]][y[2]] /\ o.rows[x[1]][x[2]] # o.rows[y[1]][y[2]]
       THEN "the same call gives different results" ELSE Ok
VAlias(o) == IF o.shared = <<>> THEN Ok ELSE o.shared[1]

\* C19: o.table is what the generated function, compiled, returns
VGen(c, o) ==
    LET w == IF c.via = "cli" THEN Commanded(c) ELSE Generated(c)
        t == [i \in 1 .. Len(o.table) |-> [d |-> o.table[i].d, m |-> [j \in 1 .. Len(o.table[i].m) |-> ToSet(o.table[i].m[j])]]]
    IN IF c.failw THEN IF o.err THEN Ok ELSE "what could not be written is not reported"
       ELSE IF w.k = "outside" THEN Ok
       ELSE IF ~o.same THEN "the output is not deterministic"
       ELSE IF w.k = "error" THEN IF o.err /\ o.silent THEN Ok ELSE "not refused"
       ELSE IF o.err THEN "refused"
       ELSE IF ~o.valid THEN "the output is not valid Go"
       ELSE IF t # w.t THEN "the table is not what the source declares"
       ELSE IF ~o.sorted THEN "the directives are not in order"
       ELSE IF ~o.others THEN "the function knows what the table does not hold"
       ELSE IF ~o.comment THEN "the comment is missing" ELSE Ok

\* C24
VExt(c, o) == Same(o.toks, XLexAll(c.x, c.regs, c.fail), "tokens differ")

\* C25: everything a program can find out about the errors of a call
Premature_(e) == e.w \in {EofWhat, PrematureWhat}
Injected(c) == {c.files[i].e : i \in {j \in 1 .. Len(c.files) : c.files[j].k = "read"}}
View(c, at, e, file, line) ==
    [ at |-> at, err |-> e, json |-> e.t, line |-> line, file |-> file, prem |-> Premature_(e),
      is |-> IF e.w \in Injected(c) \/ (e.f = "" /\ e.w # CycleWhat) THEN {e.w} ELSE {}, as |-> e.f # "", again |-> TRUE ]
Views(c) ==
    LET w == Outcome(c)
        cfg(i) == LET g == w.p.config[i] IN [j \in 1 .. Len(g.errs) |-> View(c, "config", g.errs[j].err, g.file, g.errs[j].l)]
    IN [i \in 1 .. Len(w.ret) |-> View(c, "ret", w.ret[i], "", 0)]
       \o [i \in 1 .. Len(w.p.errs) |-> View(c, "payload", w.p.errs[i].err, w.p.errs[i].file, w.p.errs[i].l)]
       \o FoldLeft(LAMBDA a, i : a \o cfg(i), <<>>, [i \in 1 .. Len(w.p.config) |-> i])
       \o (IF c.opt.cb /\ w.ret = <<>> /\ ~c.opt.combine THEN [i \in 1 .. Len(w.p.errs) |-> View(c, "callback", w.p.errs[i].err, "", 0)] ELSE <<>>)
\* the error of an included file that cannot be opened may or may not be reachable
SeenAs(c, x) == LET r == [x EXCEPT !.is = ToSet(@)] IN
    IF x.err.f # "" /\ r.is \subseteq {x.err.w} /\ ~(x.err.w \in Injected(c)) THEN [r EXCEPT !.is = {}] ELSE r
VErrs(c, o) ==
    LET w == Views(c)
        g == [i \in 1 .. Len(o.es) |-> SeenAs(c, o.es[i])]
        h == IF c.opt.combine \/ (o.es # <<>> /\ o.es[1].at = "ret") THEN SelectSeq(g, LAMBDA x : x.at # "callback") ELSE g
    IN IF [i \in 1 .. Len(w) |-> w[i].err.w] # [i \in 1 .. Len(h) |-> h[i].err.w] THEN "the errors differ"
       ELSE Same(h, w, "an error tells something else")
VLexErrs(c, o) ==
    LET w == SelectSeq(IF c.regs = <<>> THEN LexAll(c.x, IF c.lua THEN LuaNames ELSE {}, c.fail) ELSE XLexAll(c.x, c.regs, c.fail), LAMBDA t : t.e # "")
    IN IF Len(w) # Len(o.es) THEN "the errors differ"
       ELSE IF \A i \in 1 .. Len(w) : /\ o.es[i].err.w = w[i].e /\ (IF o.es[i].as THEN o.es[i].err.l ELSE o.es[i].line) = w[i].l /\ o.es[i].again /\ o.es[i].json = o.es[i].err.t
                                      /\ o.es[i].prem = (w[i].e = EofWhat)
                                      /\ ToSet(o.es[i].is) = IF c.fail # "" /\ w[i].e = c.fail THEN {c.fail} ELSE {}
       THEN Ok ELSE "an error tells something else"
MadeText(e) == e.w \o " in " \o (IF e.hf THEN e.f ELSE "(nofile)") \o (IF e.hl THEN ":" \o ToString(e.l) ELSE "")
VMade(c, o) == IF \A i \in 1 .. Len(c.es) : LET x == o.es[i] IN x.err.t = MadeText(c.es[i]) /\ x.json = x.err.t /\ x.again /\ x.as /\ ~x.prem
               THEN Ok ELSE "a message differs"

\* C20: of the calls made, those that did not return
VTotal(c, o) == IF o.bad = <<>> THEN Ok ELSE o.bad[1].c \o ": " \o o.bad[1].o

\* C23
VEqual(c, o) ==
    IF ~o.kept THEN "comparing changed a directive"
    ELSE IF \E i \in 1 .. Len(c.ds) : ~o.self[i] \/ ~o.same[i] THEN "a directive does not equal itself or its twin"
    ELSE IF \E i \in 1 .. Len(c.ds), j \in 1 .. Len(c.with) : o.eq[i][j] # StructEq(c.ds[i], c.with[j]) THEN "Equal is not structural equality"
    ELSE Ok

\* C26
VViews(c, o) ==
    IF ~o.kept THEN "asking changed a directive"
    ELSE IF o.v # ViewsOf(o.ds) THEN "a directive says something else of itself"
    ELSE Ok
VHeld(c, o) ==
    IF \E i \in 1 .. Len(c.ts) : LET s == DoAll(NoFiles, c.ts[i]) IN o.outs[i] # [held |-> Listed(s), all |-> s.handles, old |-> Earlier(s), bad |-> ""] THEN "the creator holds something else" ELSE Ok

VLua(c, o) ==
    IF c.op \in {"lex", "lexn"} THEN VLex(c, o)
    ELSE IF c.op = "round" THEN VRound(c, o)
    ELSE IF c.op = "build" THEN VBuild(c, o)
    ELSE VNoLines(c, o)

Judge(c, o) ==
    CASE Prop = "C01" -> VLex(c, o)
      [] Prop = "C02" -> VLine(c, o)
      [] Prop = "C03" -> VTree(c, o)
      [] Prop = "C04" -> VAccept(c, o)
      [] Prop = "C05" -> VAcceptOnly(c, o)
      [] Prop = "C06" -> VNoLines(c, o)
      [] Prop = "C07" -> VCollect(c, o)
      [] Prop = "C08" -> VStop(o)
      [] Prop = "C09" -> VInclude(c, o)
      [] Prop = "C10" -> VCycle(c, o)
      [] Prop = "C11" -> IF c.op = "combine" THEN VCombine(c, o) ELSE VCombineParse(c, o)
      [] Prop = "C12" -> VRound(c, o)
      [] Prop = "C13" -> VQuote(c, o)
      [] Prop = "C14" -> IF c.op = "build" THEN VBuild(c, o) ELSE IF c.op = "files" THEN VFiles(c, o) ELSE VInto(c, o)
      [] Prop = "C15" -> VJson(c, o)
      [] Prop = "C16" -> VLua(c, o)
      [] Prop = "C17" -> IF c.op = "par" THEN VParallel(o) ELSE VAllSame(o)
      [] Prop = "C18" -> VIO(c, o)
      [] Prop = "C19" -> VGen(c, o)
      [] Prop = "C20" -> VTotal(c, o)
      [] Prop = "C21" -> IF c.kind = "comments" THEN VFilter(c, o) ELSE IF c.kind = "single" THEN VSingle(c, o)
                         ELSE IF c.kind = "ignored" THEN VNoLines(c, o) ELSE VIgnore(o)
      [] Prop = "C22" -> IF c.op = "alias" THEN VAlias(o) ELSE VHist(c, o)
      [] Prop = "C23" -> VEqual(c, o)
      [] Prop = "C24" -> IF c.op = "lexx" THEN VExt(c, o) ELSE VNoLines(c, o)
      [] Prop = "C25" -> IF c.op = "errs" THEN VErrs(c, o) ELSE IF c.op = "lexerrs" THEN VLexErrs(c, o) ELSE VMade(c, o)
      [] Prop = "C26" -> IF c.op = "filesn" THEN VHeld(c, o) ELSE VViews(c, o)
      [] Prop = "FULL" -> VFull(c, o)

Want(c, o) ==
    CASE c.op = "lex"  -> WantToks(c)
      [] c.op = "lexn" -> WantToksN(c)
      [] c.op = "lexx" -> XLexAll(c.x, c.regs, c.fail)
      [] c.op \in {"parse", "round", "realfs"} -> Outcome(c)
      [] c.op = "multi" -> "see the property: the outcomes are compared with each other"
      [] c.op = "errs" -> Views(c)
      [] c.op = "errfmt" -> [i \in 1 .. Len(c.es) |-> MadeText(c.es[i])]
      [] c.op = "combine" -> Combine(c.p)
      [] c.op = "build" -> BuildText(c.build, c.parsed)
      [] c.op = "files" -> FilesAfter(c, Len(c.p.config))
      [] c.op = "into" -> [i \in 1 .. Len(c.p.config) |-> BuildText(c.build, c.p.config[i].parsed)]
      [] c.op = "quoten" -> "every word reads back as itself"
      [] c.op = "json" -> Decoded(c.p)
      [] c.op = "equal" -> [i \in 1 .. Len(c.ds) |-> [j \in 1 .. Len(c.with) |-> StructEq(c.ds[i], c.with[j])]]
      [] c.op \in {"views", "viewsp"} -> ViewsOf(o.ds)
      [] c.op = "filesn" -> [i \in 1 .. Len(c.ts) |-> LET s == DoAll(NoFiles, c.ts[i]) IN [held |-> Listed(s), all |-> s.handles, old |-> Earlier(s)]]
      [] c.op = "gen" -> IF c.via = "cli" THEN Commanded(c) ELSE Generated(c)
      [] OTHER -> "see the property"

-------------------------------------------------------------------------------
Init == k \in 1 .. Len(Cases) /\ v = "todo"
Next == v = "todo" /\ v' = Judge(Cases[k].c, Cases[k].o) /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

Report == v \notin {"todo", Ok} => PrintT(ToJson([id |-> Cases[k].id, why |-> v]))
Detail == v # "todo" => PrintT(ToJson([id |-> Cases[k].id, why |-> v, expected |-> Want(Cases[k].c, Cases[k].o)]))
===============================================================================
