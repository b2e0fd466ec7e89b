-------------------------------- MODULE MC_Equal --------------------------------
(* Every small directive, up to Changes fields changed from a plain one, its    *)
(* block's members included; equality on all pairs is exported for replay.      *)
EXTENDS NgxBuild, Json
CONSTANTS Changes, Export

Base == Dir("a", 1, "")
Names == {"a", "b", "A", ""}
Edits(x) == {[x EXCEPT !.d = n] : n \in Names}
      \cup {[x EXCEPT !.l = n] : n \in {0, 1, 2}}
      \cup {[x EXCEPT !.a = n] : n \in {<<>>, <<"x">>, <<"">>, <<"x", "y">>, <<"y", "x">>, <<"x", "x">>, <<"xy">>, <<"x y">>}}
      \cup {[x EXCEPT !.f = n] : n \in {"", "f"}}
      \cup {[x EXCEPT !.i = n, !.hi = TRUE] : n \in {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>}}
      \cup {[x EXCEPT !.c = n, !.hc = TRUE] : n \in {"", "c"}}
      \cup {[x EXCEPT !.m = ~@]}
Blocks(x, kids) == {[x EXCEPT !.b = <<>>, !.hb = TRUE]} \cup {[x EXCEPT !.b = <<k>>, !.hb = TRUE] : k \in kids}
                   \cup {[x EXCEPT !.b = <<j, k>>, !.hb = TRUE] : j, k \in {Base, [Base EXCEPT !.d = "b"]}}
RECURSIVE Some(_, _)
Some(S, n) == IF n = 0 THEN S ELSE Some(S \cup UNION {Edits(x) : x \in S}, n - 1)
Flat == Some({Base}, Changes)
Nested == Blocks(Base, Some({Base}, 1)) \cup UNION {Blocks(x, {Base, [Base EXCEPT !.d = "b"]}) : x \in Some({Base}, 1)}
          \cup Blocks(Base, Blocks(Base, Some({Base}, 1)))
NilDir == Dir("<nil>", 0, "")
All == Flat \cup Nested \cup {NilDir}

VARIABLE x
Init == x \in All
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Reflexive == StructEq(x, x)
Symmetric == \A y \in All : StructEq(x, y) = StructEq(y, x)
Transitive == \A y \in All : StructEq(x, y) => \A z \in All : StructEq(y, z) => StructEq(x, z)
\* what is not equal differs in a field
Separates == \A y \in All : StructEq(x, y) \/ \E fld \in {"d", "l", "a", "f", "i", "b", "c", "hc", "m"} : x[fld] # y[fld]
NilAlone == StructEq(x, NilDir) => x = NilDir
ExportVec == Export => PrintT(ToJson([x |-> x]))
===============================================================================
