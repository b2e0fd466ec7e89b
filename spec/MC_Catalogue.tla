----------------------------- MODULE MC_Catalogue -----------------------------
(* The shipped catalogues, as data, and what they admit: one state per          *)
(* distinct list of declared uses, with its verdicts on every question.         *)
EXTENDS NgxValidate, IOUtils, TLC

CONSTANTS Export
Setup == JsonDeserialize(IOEnv.SETUP)
\* [lists, ctxs, args, terms, opt, catalog, union]

VARIABLES i, row
vars == <<i, row>>

NC == Len(Setup.ctxs)
NA == Len(Setup.args)
NT == Len(Setup.terms)
Ask(uses, k) ==   \* question k, counting ends fastest
    LET t == ((k - 1) % NT) + 1
        a == (((k - 1) \div NT) % NA) + 1
        x == ((k - 1) \div (NT * NA)) + 1
    IN Verdict(<< << [n |-> "d", m |-> uses] >> >>, Setup.opt, Setup.ctxs[x], "d", Setup.args[a], Setup.terms[t])

Init == i \in 1 .. Len(Setup.lists) /\ row = <<>>
Next == /\ row = <<>>
        /\ row' = [k \in 1 .. NC * NA * NT |-> IF Ask(Setup.lists[i], k) = "" THEN "1" ELSE "0"]
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

\* a question is answered with yes iff one of the uses alone answers it with yes
RowIsVerdict ==
    row # <<>> => \A k \in 1 .. Len(row) :
        (row[k] = "1") = \E u \in 1 .. Len(Setup.lists[i]) : Ask(<<Setup.lists[i][u]>>, k) = ""

\* every declared use can be met somewhere
SomeUse == row # <<>> => \E k \in 1 .. Len(row) : row[k] = "1"

\* the default source is the union of three catalogues
Cat(n) == LET s == CHOOSE j \in 1 .. Len(Setup.catalog) : Setup.catalog[j].n = n IN Setup.catalog[s].t
Entries(t) == {t[j] : j \in 1 .. Len(t)}
DefaultIsUnion ==
    i = 1 /\ row = <<>> =>
        Entries(Cat("default")) = UNION {Entries(Cat(Setup.union[j])) : j \in 1 .. Len(Setup.union)}

ExportVec == Export /\ row # <<>> => PrintT(ToJson([i |-> i, row |-> row]))
===============================================================================
