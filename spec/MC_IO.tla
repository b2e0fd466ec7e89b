--------------------------------- MODULE MC_IO ---------------------------------
EXTENDS NgxIO, Json
CONSTANTS Export
ExportVec == Export /\ mode = "returned" /\ faults # <<>> => PrintT(ToJson([prog |-> prog, stop |-> stop, faults |-> faults, ret |-> ret]))
===============================================================================
