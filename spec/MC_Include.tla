------------------------------ MODULE MC_Include ------------------------------
(* Every small file system: each file holds a short list of statements out of  *)
(* Setup.items, and the files found are parsed one after the other, as they    *)
(* are found.                                                                  *)
EXTENDS NgxCombine, IOUtils, TLC

CONSTANTS Export
Setup == JsonDeserialize(IOEnv.SETUP)
\* [items: seq of [x text, t targets (names, in order), w block, inc(lude), bad, odd],
\*  files: seq of [n name, max statements, items: indices it may use], base: a case]
VARIABLES fs, s, ctxs   \* ctxs: the block contexts of the files parsed so far
vars == <<fs, s, ctxs>>

NF == Len(Setup.files)
Lists(f) == UNION {[1 .. m -> {f.items[j] : j \in 1 .. Len(f.items)}] : m \in 0 .. f.max}
TextOf(l) == FoldLeft(LAMBDA a, j : a \o Setup.items[j].x \o "\n", "", l)
CaseOf(v) == [Setup.base EXCEPT !.files = [i \in 1 .. NF |-> [n |-> Setup.files[i].n, k |-> "ok", x |-> TextOf(v[i]), e |-> ""]]
                                          \o Setup.base.files]
C == CaseOf(fs)
Start == [ queue |-> << [n |-> Setup.base.main, ctx |-> <<>>] >>, names |-> <<Setup.base.main>>,
           edges |-> {}, done |-> <<>>, perrs |-> <<>>, ret |-> <<>> ]

\* the choice of the contents, one file at a time, then the parsing
Init == fs = <<>> /\ s = Start /\ ctxs = <<>>
Choose == /\ Len(fs) < NF
          /\ \E l \in Lists(Setup.files[Len(fs) + 1]) : fs' = Append(fs, l)
          /\ UNCHANGED <<s, ctxs>>
Parse == /\ Len(fs) = NF /\ s.queue # <<>> /\ s.ret = <<>>
         /\ s' = ParseFile(C, [s EXCEPT !.queue = Tail(@)], Head(s.queue))
         /\ ctxs' = Append(ctxs, Head(s.queue).ctx)
         /\ UNCHANGED fs
Next == Choose \/ Parse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == Len(fs) = NF /\ (s.queue = <<>> \/ s.ret # <<>>)
-------------------------------------------------------------------------------
Names(xs) == [i \in 1 .. Len(xs) |-> xs[i].n]
DoneNames == [i \in 1 .. Len(s.done) |-> s.done[i].file]

\* files are parsed in the order in which they were first named, each once
InOrder == s.ret = <<>> => DoneNames \o Names(s.queue) = s.names
Once == \A i, j \in 1 .. Len(s.names) : s.names[i] = s.names[j] => i = j

\* what was referenced by the files parsed so far, in the order of the text
RECURSIVE RefsIn(_, _)
RefsIn(ds, ctx) == FoldLeft(LAMBDA a, x : a \o (IF x.d = "include" /\ ~x.m THEN [k \in 1 .. Len(x.i) |-> [n |-> s.names[x.i[k] + 1], c |-> ctx]] ELSE <<>>)
                                            \o RefsIn(x.b, EnterCtx(x.d, ctx)), <<>>, ds)
AllRefs == FoldLeft(LAMBDA a, k : a \o RefsIn(s.done[k].parsed, ctxs[k]), <<>>, [k \in 1 .. Len(s.done) |-> k])
\* a file is parsed in the block it was first named in
FirstContext ==
    s.ret = <<>> /\ (\A k \in 1 .. Len(s.done) : s.done[k].parsed # <<>> \/ s.done[k].st = "ok") =>
        \A i \in 1 .. Len(s.queue) :
            LET hits == {k \in 1 .. Len(AllRefs) : AllRefs[k].n = s.queue[i].n}
            IN s.queue[i].n = Setup.base.main \/
               (hits # {} /\ s.queue[i].ctx = AllRefs[CHOOSE k \in hits : \A j \in hits : k <= j].c)

\* each include directive lists exactly the files its argument stands for
Items(l) == [k \in 1 .. Len(l) |-> Setup.items[l[k]]]
RECURSIVE IncsOf(_)
IncsOf(ds) == FoldLeft(LAMBDA a, x : a \o (IF x.d = "include" /\ ~x.m THEN << [k \in 1 .. Len(x.i) |-> s.names[x.i[k] + 1]] >> ELSE <<>>) \o IncsOf(x.b), <<>>, ds)
FileNo(n) == CHOOSE i \in 1 .. NF : Setup.files[i].n = n
ListsTargets ==
    \A k \in 1 .. Len(s.done) :
        LET l == Items(fs[FileNo(s.done[k].file)])
            want == SelectSeq([q \in 1 .. Len(l) |-> l[q]], LAMBDA it : it.inc)
        IN (s.done[k].st = "ok" \/ ~(\E q \in 1 .. Len(l) : l[q].odd)) =>
              IncsOf(s.done[k].parsed) = [w \in 1 .. Len(want) |-> want[w].t]

\* an explicit file that cannot be opened is one error of its file
MissingReported ==
    \A k \in 1 .. Len(s.done) :
        LET l == Items(fs[FileNo(s.done[k].file)])
        IN ~(\E q \in 1 .. Len(l) : l[q].odd) =>
              Len(s.done[k].errs) = Cardinality({q \in 1 .. Len(l) : l[q].bad})

\* some file includes itself, directly or not, iff the parse ends with the cycle error
Nodes == {s.names[i] : i \in 1 .. Len(s.names)}
RECURSIVE Closure(_)
Closure(E) == LET F == E \cup {<<a, b>> \in Nodes \X Nodes : \E m \in Nodes : <<a, m>> \in E /\ <<m, b>> \in E}
              IN IF F = E THEN E ELSE Closure(F)
SelfReach == \E a \in Nodes : <<a, a>> \in Closure(s.edges)
CycleIff == Ended /\ s.ret = <<>> => (~Acyclic(s.edges) <=> SelfReach)

\* combining a parse without a cycle never fails, and leaves no resolved include
RECURSIVE HasIncl(_)
HasIncl(ds) == \E i \in 1 .. Len(ds) : IsInclude(ds[i]) \/ HasIncl(ds[i].b)
Out == IF s.ret # <<>> THEN Failure(s.ret[1])
       ELSE IF ~Acyclic(s.edges) THEN Failure(RawErr(CycleWhat))
       ELSE [ret |-> <<>>, payload |-> [st |-> Status(s.perrs), errs |-> s.perrs, config |-> s.done]]
CombineWorks ==
    Ended /\ Out.ret = <<>> => LET m == Combine(Out.payload) IN
        m.ret = <<>> /\ ~HasIncl(m.payload.config[1].parsed) /\ m.payload.st = Out.payload.st

Terminates == <>Ended
ExportVec == Export /\ Ended => PrintT(ToJson([fs |-> [i \in 1 .. NF |-> C.files[i].x], ret |-> Out.ret, p |-> Out.payload]))
===============================================================================
