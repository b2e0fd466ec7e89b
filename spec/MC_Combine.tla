------------------------------ MODULE MC_Combine ------------------------------
(* Combining, on every small payload: each config holds a short list of the     *)
(* statements Setup.items.  The configs are chosen one per step.               *)
EXTENDS NgxCombine, IOUtils, TLC

CONSTANTS Export
Setup == JsonDeserialize(IOEnv.SETUP)
\* [items: directives, sizes: most statements per config, stati: of the configs]
VARIABLES cs
vars == <<cs>>
NC == Len(Setup.sizes)
Lists(k) == UNION {[1 .. m -> 1 .. Len(Setup.items)] : m \in 0 .. Setup.sizes[k]}
Err(k) == PErr("e" \o ToString(k), k, "f" \o ToString(k), "s", "b")
Cfg(k, l, st) == [ file |-> "f" \o ToString(k), st |-> st,
                   errs |-> IF st = "failed" THEN <<Err(k)>> ELSE <<>>,
                   parsed |-> [j \in 1 .. Len(l) |-> [Setup.items[l[j]] EXCEPT !.l = j, !.f = "f" \o ToString(k)]] ]

Init == cs = <<>>
Next == Len(cs) < NC /\ \E l \in Lists(Len(cs) + 1), t \in 1 .. Len(Setup.stati) :
            cs' = Append(cs, Cfg(Len(cs) + 1, l, Setup.stati[t]))
Spec == Init /\ [][Next]_vars

P == [st |-> IF \E k \in 1 .. Len(cs) : cs[k].st = "failed" THEN "failed" ELSE "ok", errs |-> <<>>, config |-> cs]
R == Combine(P)
-------------------------------------------------------------------------------
RECURSIVE HasIncl(_)
HasIncl(ds) == \E i \in 1 .. Len(ds) : IsInclude(ds[i]) \/ HasIncl(ds[i].b)
\* the indices a list of directives refers to
RECURSIVE Refs(_)
Refs(ds) == UNION {(IF IsInclude(ds[i]) THEN {ds[i].i[j] : j \in 1 .. Len(ds[i].i)} ELSE {}) \cup Refs(ds[i].b) : i \in 1 .. Len(ds)}
RECURSIVE Reached(_, _)
Reached(S, n) == IF n = 0 THEN S
                 ELSE Reached(S \cup UNION {IF k \in 0 .. Len(cs) - 1 THEN Refs(cs[k + 1].parsed) ELSE {} : k \in S}, n - 1)
Root == Reached({0}, NC + 1)
Bad == \/ \E k \in Root : k \notin 0 .. Len(cs) - 1
       \/ \E k \in Root : k \in Reached(Refs(cs[k + 1].parsed), NC + 1)

\* refused exactly when a reachable reference leads nowhere or back
RefusedIff == cs # <<>> => ((R.ret # <<>>) <=> Bad)
\* a payload without configs stays
EmptyStays == cs = <<>> => R = [ret |-> <<>>, payload |-> P]
Nothing2Resolve == R.ret = <<>> /\ cs # <<>> => ~HasIncl(R.payload.config[1].parsed)
OneConfig == R.ret = <<>> /\ cs # <<>> => Len(R.payload.config) = 1 /\ R.payload.config[1].file = cs[1].file
AllErrors == R.ret = <<>> /\ cs # <<>> =>
    /\ R.payload.config[1].errs = FoldLeft(LAMBDA a, k : a \o cs[k].errs, <<>>, [k \in 1 .. Len(cs) |-> k])
    /\ (R.payload.config[1].st = "failed") = (\E k \in 1 .. Len(cs) : cs[k].st = "failed")

\* the tree, said once more: a word per directive, includes replaced by what they list
RECURSIVE Words(_, _)
Words(ds, n) == FoldLeft(LAMBDA a, x :
    a \o (IF IsInclude(x) THEN FoldLeft(LAMBDA b, k : b \o (IF n = 0 THEN <<>> ELSE Words(cs[x.i[k] + 1].parsed, n - 1)), <<>>, [k \in 1 .. Len(x.i) |-> k])
          ELSE << <<x.d, x.a, x.l, x.f, x.hb>> >> \o (IF x.hb THEN << <<"(">> >> \o Words(x.b, n) \o << <<")">> >> ELSE <<>>)), <<>>, ds)
SameWords == R.ret = <<>> /\ cs # <<>> => Words(R.payload.config[1].parsed, 0) = Words(cs[1].parsed, NC)
\* combining what is combined changes nothing
Idempotent == R.ret = <<>> /\ cs # <<>> => Combine(R.payload) = R

ExportVec == Export => PrintT(ToJson([p |-> P, ret |-> R.ret, out |-> R.payload]))
===============================================================================
