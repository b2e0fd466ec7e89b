-------------------------------- MODULE MC_Chan --------------------------------
(* The goroutines' model, with the schedules (source hands out a chunk / parser *)
(* takes a token) exported for replay.                                          *)
EXTENDS NgxChan, Json, IOUtils
CONSTANTS Export
ExportVec == Export /\ mode = "returned" => PrintT(ToJson([s |-> hist, p |-> p]))
HistView == <<p, fed, made, luamade, buf, closed, luadone, got, result, mode>>
===============================================================================
