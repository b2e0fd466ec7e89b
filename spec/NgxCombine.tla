------------------------------ MODULE NgxCombine ------------------------------
(* Combining a payload: every resolved include is replaced by what it lists.   *)
EXTENDS NgxParse

IsInclude(x) == x.d = "include" /\ x.hi

\* [err |-> <<>> or <<error>>, out |-> directives]
RECURSIVE Expand(_, _, _, _)
Expand(cfgs, from, block, path) ==
    LET inclAll(x) ==
            FoldLeft(LAMBDA a, idx :
                IF a.err # <<>> THEN a
                ELSE IF idx < 0 \/ idx >= Len(cfgs)
                     THEN [a EXCEPT !.err = <<PErr("include config with index: " \o ToString(idx), x.l, from, DirText(x), "")>>]
                ELSE IF \E k \in 1 .. Len(path) : path[k] = idx
                     THEN [a EXCEPT !.err = <<PErr(CycleWhat, x.l, from, DirText(x), "")>>]
                ELSE LET r == Expand(cfgs, cfgs[idx + 1].file, cfgs[idx + 1].parsed, Append(path, idx))
                     IN [err |-> r.err, out |-> a.out \o r.out],
                [err |-> <<>>, out |-> <<>>], x.i)
        step(a, x) ==
            IF a.err # <<>> THEN a
            ELSE LET r == IF x.hb THEN Expand(cfgs, from, x.b, path) ELSE [err |-> <<>>, out |-> <<>>]
                     y == [x EXCEPT !.b = r.out]
                 IN IF r.err # <<>> THEN [a EXCEPT !.err = r.err]
                    ELSE IF ~IsInclude(x) THEN [a EXCEPT !.out = Append(@, y)]
                    ELSE LET q == inclAll(y) IN [err |-> q.err, out |-> a.out \o q.out]
    IN FoldLeft(step, [err |-> <<>>, out |-> <<>>], block)

\* p: payload [ok, errs, config]; config: [file, ok, errs, parsed]
Combine(p) ==
    IF p.config = <<>> THEN [ret |-> <<>>, payload |-> p]
    ELSE LET r == Expand(p.config, p.config[1].file, p.config[1].parsed, <<0>>)
         IN IF r.err # <<>> THEN Failure(r.err[1])
            ELSE [ret |-> <<>>,
                  payload |-> [st |-> IF p.st = "" THEN "ok" ELSE p.st, errs |-> p.errs, config |-> << [
                      file   |-> p.config[1].file,
                      st     |-> IF \E k \in 1 .. Len(p.config) : p.config[k].st = "failed" THEN "failed" ELSE "ok",
                      errs   |-> FoldLeft(LAMBDA a, k : a \o p.config[k].errs, <<>>, [k \in 1 .. Len(p.config) |-> k]),
                      parsed |-> r.out] >>]]

\* the outcome of a call of Parse
ParseAll(c) ==
    LET r == ParseFiles(c)
    IN IF r.ret # <<>> \/ ~c.opt.combine THEN r ELSE Combine(r.payload)
===============================================================================
