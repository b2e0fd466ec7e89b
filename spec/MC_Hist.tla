-------------------------------- MODULE MC_Hist --------------------------------
(* All histories of up to MaxSteps calls.                                       *)
EXTENDS NgxHist, Json
CONSTANTS MaxSteps, NTexts, NOpts, NLays, Export
VARIABLES objs, kinds, hist
vars == <<objs, kinds, hist>>

Init == objs = Fixed /\ kinds = [i \in 1 .. NFixed |-> "fixed"] /\ hist = <<>>

Do(o, a, b, kind) ==
    LET s == [o |-> o, a |-> a, b |-> b] IN
    /\ objs' = Apply(objs, s) /\ hist' = Append(hist, s)
    /\ kinds' = IF o = "poke" THEN kinds ELSE Append(kinds, kind)
OfKind(K) == {i \in 1 .. Len(kinds) : kinds[i] \in K}
\* results that are still bound to another one by what they hold
Bound(h) == \E i \in 1 .. Len(hist) : hist[i].o = "comb" /\ hist[i].a = h
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E t \in 1 .. NTexts, o \in 1 .. NOpts : Do("parse", t, o, "payload")
           \/ \E t \in 1 .. NTexts : Do("lex", t, 0, "tokens")
           \/ \E h \in OfKind({"payload"}) : Do("comb", h, 0, "combined")
           \/ \E h \in OfKind({"payload", "combined"}), l \in 3 .. 2 + NLays : Do("build", h, l, "text") \/ Do("into", h, l, "text")
           \/ \E h \in OfKind({"payload", "combined"}) : Do("json", h, 0, "text")
           \/ \E h, g \in OfKind({"payload", "combined"}) : h <= g /\ Do("equal", h, g, "bool")
           \/ \E h \in OfKind({"payload"}) : ~Bound(h) /\ Do("poke", h, 0, "")
Spec == Init /\ [][Next]_vars

TypeOK == Len(objs) = Len(kinds)
\* a call changes no object
Persistent == [][\A i \in 1 .. Len(objs) : objs'[i] = objs[i] \/ (hist'[Len(hist')].o = "poke" /\ hist'[Len(hist')].a = i)]_vars
\* the same call on the same values makes the same value
Deterministic == \A i, j \in 1 .. Len(hist) :
    (hist[i] = hist[j] /\ hist[i].o \in {"parse", "lex"}) =>
        LET h(k) == NFixed + Cardinality({m \in 1 .. k : hist[m].o # "poke"})
            poked(k) == \E m \in k .. Len(hist) : hist[m].o = "poke" /\ hist[m].a = h(k)
        IN poked(i) \/ poked(j) \/ objs[h(i)] = objs[h(j)]
\* histories worth replaying: some term comes up twice or something is made from something
ExportVec == Export /\ Len(hist) = MaxSteps => PrintT(ToJson([s |-> hist]))
===============================================================================
