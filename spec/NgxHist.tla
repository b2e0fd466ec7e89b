-------------------------------- MODULE NgxHist --------------------------------
(* Histories of calls.  The caller holds objects: option values, the shipped    *)
(* tables, and the results of earlier calls.  The value of an object is a term  *)
(* that says how it came about; a call makes a new object whose term depends on *)
(* nothing but the call and the terms of its arguments, and touches no other    *)
(* object.  The caller may change a result of a parse; that changes no other.   *)
(* An implementation conforms when there is one concrete value for each term:   *)
(* equal terms stand for equal values, in whatever history they come up.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* the objects held from the start
Fixed == <<"O1", "O2", "B1", "B2", "T">>
NFixed == Len(Fixed)

\* a step is [o(p), a, b]; a, b: numbers of objects, or of texts
\* parse text a with options b; lex text a; combine a; build a with layout b; json a;
\* equal a and b; write a with layout b; poke: the caller changes a
TermOf(ts, s) ==
    CASE s.o = "parse" -> "P(" \o ToString(s.a) \o "," \o ts[s.b] \o ")"
      [] s.o = "lex"   -> "L(" \o ToString(s.a) \o ")"
      [] s.o = "comb"  -> "C(" \o ts[s.a] \o ")"
      [] s.o = "build" -> "B(" \o ts[s.a] \o "," \o ts[s.b] \o ")"
      [] s.o = "into"  -> "W(" \o ts[s.a] \o "," \o ts[s.b] \o ")"
      [] s.o = "json"  -> "J(" \o ts[s.a] \o ")"
      [] s.o = "equal" -> "E(" \o ts[s.a] \o "," \o ts[s.b] \o ")"
Apply(ts, s) ==
    IF s.o = "poke" THEN [ts EXCEPT ![s.a] = "X(" \o @ \o ")"]
    ELSE Append(ts, TermOf(ts, s))
===============================================================================
