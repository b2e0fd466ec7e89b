------------------------------- MODULE NgxJson -------------------------------
(* The JSON form of a payload.  A JSON value is a tuple of a tag and a value:  *)
(* <<"s", text>>, <<"n", number>>, <<"b", bool>>, <<"z">>, <<"a", values>>,    *)
(* <<"o", function from field names to values>>.                               *)
EXTENDS NgxBuild

JStr(x)  == <<"s", x>>
JNum(x)  == <<"n", x>>
JNull    == <<"z">>
JArr(xs) == <<"a", xs>>
\* fields: a sequence of <<name, value>>
JObj(fields) == <<"o", [n \in {fields[i][1] : i \in 1 .. Len(fields)} |->
                           fields[CHOOSE i \in 1 .. Len(fields) : fields[i][1] = n][2]]>>
Opt(cond, name, val) == IF cond THEN << <<name, val>> >> ELSE <<>>

\* a decoded value, whose objects are sequences of fields
RECURSIVE FromTagged(_)
FromTagged(t) ==
    IF t[1] = "a" THEN JArr([i \in 1 .. Len(t[2]) |-> FromTagged(t[2][i])])
    ELSE IF t[1] = "o" THEN JObj([i \in 1 .. Len(t[2]) |-> <<t[2][i][1], FromTagged(t[2][i][2])>>])
    ELSE t
\* no field occurs twice
RECURSIVE FieldsUnique(_)
FieldsUnique(t) ==
    IF t[1] = "a" THEN \A i \in 1 .. Len(t[2]) : FieldsUnique(t[2][i])
    ELSE IF t[1] = "o" THEN /\ \A i \in 1 .. Len(t[2]) : FieldsUnique(t[2][i][2])
                            /\ Cardinality({t[2][i][1] : i \in 1 .. Len(t[2])}) = Len(t[2])
    ELSE TRUE

LineJson(l) == IF l = 0 THEN JNull ELSE JNum(l)

RECURSIVE DirsJson(_)
DirJson(x) == JObj(
       << <<"directive", JStr(x.d)>>, <<"line", JNum(x.l)>>,
          <<"args", JArr([i \in 1 .. Len(x.a) |-> JStr(x.a[i])])>> >>
    \o Opt(x.f # "", "file", JStr(x.f))
    \o Opt(x.i # <<>>, "includes", JArr([i \in 1 .. Len(x.i) |-> JNum(x.i[i])]))
    \o Opt(x.hb, "block", DirsJson(x.b))
    \o Opt(x.hc, "comment", JStr(x.c))
    \o Opt(x.m, "mapBlockParameter", <<"b", TRUE>>))
DirsJson(ds) == JArr([i \in 1 .. Len(ds) |-> DirJson(ds[i])])

\* an entry made by hand may have no error
NilErr == [RawErr("") EXCEPT !.w = "<nil>"]
ErrJson(e) == IF e = NilErr THEN JNull ELSE JStr(e.t)
PayloadErrorJson(e) == JObj(<< <<"file", JStr(e.file)>>, <<"line", LineJson(e.l)>>, <<"error", ErrJson(e.err)>> >>
                            \o Opt(e.cb # "", "callback", JStr(e.cb)))
ConfigErrorJson(e) == JObj(<< <<"line", LineJson(e.l)>>, <<"error", ErrJson(e.err)>> >>)
ConfigJson(g) == JObj(<< <<"file", JStr(g.file)>>, <<"status", JStr(g.st)>>,
                         <<"errors", JArr([i \in 1 .. Len(g.errs) |-> ConfigErrorJson(g.errs[i])])>>,
                         <<"parsed", DirsJson(g.parsed)>> >>)
PayloadJson(p) == JObj(<< <<"status", JStr(p.st)>>,
                          <<"errors", JArr([i \in 1 .. Len(p.errs) |-> PayloadErrorJson(p.errs[i])])>>,
                          <<"config", JArr([i \in 1 .. Len(p.config) |-> ConfigJson(p.config[i])])>> >>)

\* what reading it back gives: errors are their messages, an empty list of includes is
\* none, everything else is the same
ErrDecoded(e) == IF e = NilErr THEN e ELSE RawErr(e.t)
RECURSIVE NoEmptyIncludes(_)
NoEmptyIncludes(ds) == [i \in 1 .. Len(ds) |-> [ds[i] EXCEPT !.hi = ds[i].i # <<>>, !.b = NoEmptyIncludes(@)]]
Decoded(p) ==
    [p EXCEPT !.errs = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.err = ErrDecoded(@)]],
              !.config = [i \in 1 .. Len(@) |->
                  [@[i] EXCEPT !.errs = [j \in 1 .. Len(@) |-> [@[j] EXCEPT !.err = ErrDecoded(@)]],
                               !.parsed = NoEmptyIncludes(@)]]]
==============================================================================
