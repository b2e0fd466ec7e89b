-------------------------------- MODULE MC_Json --------------------------------
(* The JSON form of payloads: every directive with every combination of absent, *)
(* empty and filled fields, and every small payload around it.  The fields are  *)
(* chosen one per step.  A decoder, written for the documented field names, is   *)
(* the inverse of the encoder.                                                  *)
EXTENDS NgxJson, IOUtils

CONSTANTS Export
Setup == JsonDeserialize(IOEnv.SETUP)
\* [mode: "dir" or "payload", fields: name -> values to choose from, order: names]
VARIABLES rec, n
vars == <<rec, n>>

Field(i) == Setup.order[i]
Init == rec = Setup.base /\ n = 0
Next == /\ n < Len(Setup.order) /\ n' = n + 1
        /\ \E j \in 1 .. Len(Setup.fields[Field(n + 1)]) :
              LET v == Setup.fields[Field(n + 1)][j] IN rec' = [f \in DOMAIN rec |-> IF f \in DOMAIN v THEN v[f] ELSE rec[f]]
Spec == Init /\ [][Next]_vars
Done == n = Len(Setup.order)

Leaf == [d |-> "leaf", l |-> 1, a |-> <<>>, f |-> "", i |-> <<>>, hi |-> FALSE, b |-> <<>>, hb |-> FALSE, c |-> "", hc |-> FALSE, m |-> FALSE]
P == IF Setup.mode = "dir"
     THEN [st |-> "ok", errs |-> <<>>, config |-> << [file |-> "f", st |-> "ok", errs |-> <<>>,
             parsed |-> <<rec, Leaf, [Leaf EXCEPT !.hb = TRUE, !.b = <<Leaf, rec>>]>>] >>]
     ELSE rec
-------------------------------------------------------------------------------
\* the decoder
GetF(o, f, dflt) == IF f \in DOMAIN o THEN o[f] ELSE dflt
RECURSIVE DirFrom(_)
DirFrom(j) == LET o == j[2] IN
    [ d |-> o["directive"][2], l |-> o["line"][2], a |-> [k \in 1 .. Len(o["args"][2]) |-> o["args"][2][k][2]],
      f |-> IF "file" \in DOMAIN o THEN o["file"][2] ELSE "",
      i |-> IF "includes" \in DOMAIN o THEN [k \in 1 .. Len(o["includes"][2]) |-> o["includes"][2][k][2]] ELSE <<>>,
      hi |-> "includes" \in DOMAIN o,
      b |-> IF "block" \in DOMAIN o THEN [k \in 1 .. Len(o["block"][2]) |-> DirFrom(o["block"][2][k])] ELSE <<>>,
      hb |-> "block" \in DOMAIN o,
      c |-> IF "comment" \in DOMAIN o THEN o["comment"][2] ELSE "", hc |-> "comment" \in DOMAIN o,
      m |-> IF "mapBlockParameter" \in DOMAIN o THEN o["mapBlockParameter"][2] ELSE FALSE ]
LineOf(j) == IF j[1] = "z" THEN 0 ELSE j[2]
ErrOf(j) == IF j[1] = "z" THEN NilErr ELSE RawErr(j[2])
PayloadOf(j) == LET o == j[2] IN
    [ st |-> o["status"][2],
      errs |-> [k \in 1 .. Len(o["errors"][2]) |-> LET e == o["errors"][2][k][2] IN
                  [file |-> e["file"][2], l |-> LineOf(e["line"]), err |-> ErrOf(e["error"]),
                   cb |-> IF "callback" \in DOMAIN e THEN e["callback"][2] ELSE ""]],
      config |-> [k \in 1 .. Len(o["config"][2]) |-> LET g == o["config"][2][k][2] IN
                  [file |-> g["file"][2], st |-> g["status"][2],
                   errs |-> [m \in 1 .. Len(g["errors"][2]) |-> LET e == g["errors"][2][m][2] IN [l |-> LineOf(e["line"]), err |-> ErrOf(e["error"])]],
                   parsed |-> [m \in 1 .. Len(g["parsed"][2]) |-> DirFrom(g["parsed"][2][m])]]] ]

J == PayloadJson(P)
DecodeInverts == Done => PayloadOf(J) = Decoded(P)
Again   == Done => PayloadJson(PayloadOf(J)) = J
ExportVec == Export /\ Done => PrintT(ToJson([p |-> P, j |-> J, q |-> Decoded(P)]))
===============================================================================
