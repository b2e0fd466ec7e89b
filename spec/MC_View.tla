-------------------------------- MODULE MC_View --------------------------------
(* Every small directive with what it says of itself; every history of up to    *)
(* MaxSteps uses of a creator with what it then holds.                          *)
EXTENDS NgxView, Json, TLC
CONSTANTS MaxSteps, Export
VARIABLES mode, x, s, hist
vars == <<mode, x, s, hist>>

Leaf == [d |-> "b", l |-> 1, a |-> <<>>, f |-> "", i |-> <<>>, hi |-> FALSE, b |-> <<>>, hb |-> FALSE, c |-> "", hc |-> FALSE, m |-> FALSE]
Names == {"include", "#", "a", "", "Include", "include ", "##"}
Dirs == {[d |-> n, l |-> 1, a |-> a, f |-> "", i |-> i, hi |-> i # <<>> \/ hi, b |-> b, hb |-> b # <<>> \/ hb, c |-> c, hc |-> c # "" \/ hc, m |-> m] :
            n \in Names, a \in {<<>>, <<"">>, <<"x">>, <<"x y", "z">>, <<"{", "}">>}, i \in {<<>>, <<0>>}, hi \in BOOLEAN,
            b \in {<<>>, <<Leaf>>, <<[Leaf EXCEPT !.d = "include", !.hi = TRUE], [Leaf EXCEPT !.d = "#", !.c = "c", !.hc = TRUE]>>}, hb \in BOOLEAN, c \in {"", "k"}, hc \in BOOLEAN, m \in {FALSE}}

Init == s = NoFiles /\ hist = <<>> /\ ((mode = "dir" /\ x \in Dirs) \/ (mode = "files" /\ x = Leaf))
Step(t) == s' = Do(s, t) /\ hist' = Append(hist, t)
Next == /\ mode = "files" /\ Len(hist) < MaxSteps /\ UNCHANGED <<mode, x>>
        /\ \/ \E n \in {"f", "", "g/h"} : Step([o |-> "create", h |-> 0, x |-> n])
           \/ \E h \in 1 .. Len(s.handles) : Step([o |-> "close", h |-> h, x |-> ""]) \/ \E w \in {"p", "", "q\nr"} : Step([o |-> "write", h |-> h, x |-> w])
           \/ Step([o |-> "reset", h |-> 0, x |-> ""])
Spec == Init /\ [][Next]_vars

\* a directive is at most one of an include and a comment; what has members is a block
Kinds == ~(Says(x).include /\ Says(x).comment) /\ (x.b # <<>> => Says(x).block)
\* files are held in the order of their creation, each once, and a reset leaves none
InOrder == \A i, j \in 1 .. Len(s.held) : i < j => s.held[i] < s.held[j]
Emptied == hist # <<>> /\ hist[Len(hist)].o = "reset" => s.held = <<>>
\* what a file holds depends on nothing but what is done to it
Own == \A h \in 1 .. Len(s.handles) : LET mine == SelectSeq(hist, LAMBDA t : t.h = h)
       IN s.handles[h].x = DoAll([handles |-> [i \in 1 .. h |-> [n |-> "", x |-> ""]], held |-> <<>>, old |-> <<>>], mine).handles[h].x
\* held files never shrink but by a reset
Kept == [][hist'[Len(hist')].o # "reset" => Len(s'.held) >= Len(s.held)]_vars
ExportVec == Export => /\ mode = "dir" => PrintT(ToJson([x |-> x, v |-> ViewsOf(<<x>>)]))
                       /\ mode = "files" /\ Len(hist) = MaxSteps => PrintT(ToJson([t |-> hist, held |-> Listed(s), all |-> s.handles, old |-> Earlier(s)]))
===============================================================================
