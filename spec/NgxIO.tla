--------------------------------- MODULE NgxIO ---------------------------------
(* What a parse does to the outside: it opens the main file, then every file    *)
(* included, once each in the order of first reference; at an include of one    *)
(* file it checks that the file opens, at an include of a pattern it asks glob. *)
(* Any open, read or glob may fail (up to MaxFault times).  Files are numbers,   *)
(* 1 is the main file; prog[f] is what file f holds:                            *)
(*   ["inc", g] an include of file g   ["glob", S] an include of a pattern that  *)
(*   matches the files S               ["bad"] an invalid directive              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS N, MaxItems, MaxFault
VARIABLES prog, stop, queue, names, cur, pc, open, opens, globs, faults, reports, mode, ret
vars == <<prog, stop, queue, names, cur, pc, open, opens, globs, faults, reports, mode, ret>>

Items(f) == {<<"bad">>} \cup {<<"inc", g>> : g \in (f + 1) .. N} \cup (IF f < N THEN {<<"glob", (f + 1) .. N>>, <<"glob", {}>>} ELSE {})
Contents(f) == UNION {[1 .. n -> Items(f)] : n \in 0 .. IF f < MaxItems THEN MaxItems + 1 - f ELSE 1}
Progs == {p \in [1 .. N -> UNION {Contents(f) : f \in 1 .. N}] : \A f \in 1 .. N : p[f] \in Contents(f)}

\* the files that can be reached, to leave out programs that only differ elsewhere
Direct(p, f) == UNION {IF p[f][i][1] = "inc" THEN {p[f][i][2]} ELSE IF p[f][i][1] = "glob" THEN p[f][i][2] ELSE {} : i \in 1 .. Len(p[f])}
RECURSIVE Reach(_, _, _)
Reach(p, S, k) == IF k = 0 THEN S ELSE Reach(p, S \cup UNION {Direct(p, f) : f \in S}, k - 1)

Init == /\ prog \in {p \in Progs : \A f \in 1 .. N : f \in Reach(p, {1}, N) \/ p[f] = <<>>}
        /\ stop \in BOOLEAN
        /\ queue = <<1>> /\ names = <<1>> /\ cur = 0 /\ pc = 1 /\ open = <<>> /\ opens = [f \in 1 .. N |-> 0] /\ globs = 0
        /\ faults = <<>> /\ reports = {} /\ mode = "run" /\ ret = FALSE

May == Len(faults) < MaxFault
Fault(o, f, k) == faults' = Append(faults, [o |-> o, n |-> f, k |-> k])
\* the call returns with an error; the file it is in is closed
Fail == ret' = TRUE /\ mode' = "returned" /\ open' = <<>>
KeepFaults == UNCHANGED faults

OpenOK == /\ mode = "run" /\ cur = 0 /\ queue # <<>>
          /\ cur' = Head(queue) /\ queue' = Tail(queue) /\ pc' = 1 /\ open' = Append(open, Head(queue)) /\ opens' = [opens EXCEPT ![Head(queue)] = @ + 1]
          /\ UNCHANGED <<prog, stop, names, globs, faults, reports, mode, ret>>
OpenFails == /\ mode = "run" /\ cur = 0 /\ queue # <<>> /\ May
             /\ Fault("open", Head(queue), opens[Head(queue)] + 1) /\ Fail
             /\ UNCHANGED <<prog, stop, queue, names, cur, pc, opens, globs, reports>>

Item == prog[cur][pc]
At(kind) == mode = "run" /\ cur # 0 /\ pc <= Len(prog[cur]) /\ Item[1] = kind
\* file cur cannot go on: its error is reported and the file closed
FileFails(what) == /\ reports' = reports \cup {what}
                   /\ IF stop THEN Fail /\ UNCHANGED cur
                      ELSE cur' = 0 /\ open' = <<>> /\ UNCHANGED <<mode, ret>>
Known(f) == \E i \in 1 .. Len(names) : names[i] = f
Enqueue(S) == LET new == SetToSortSeq({f \in S : ~Known(f)}, <)
              IN names' = names \o new /\ queue' = queue \o new
Bad == /\ At("bad") /\ reports' = reports \cup {<<"bad", cur>>}
       /\ IF stop THEN Fail /\ UNCHANGED pc ELSE pc' = pc + 1 /\ UNCHANGED <<open, mode, ret>>
       /\ UNCHANGED <<prog, stop, queue, names, cur, opens, globs, faults>>
IncOK == /\ At("inc") /\ pc' = pc + 1 /\ opens' = [opens EXCEPT ![Item[2]] = @ + 1] /\ Enqueue({Item[2]})
         /\ UNCHANGED <<prog, stop, cur, open, globs, faults, reports, mode, ret>>
IncFails == /\ At("inc") /\ May /\ Fault("open", Item[2], opens[Item[2]] + 1)
            /\ reports' = reports \cup {<<"open", Item[2]>>} /\ opens' = [opens EXCEPT ![Item[2]] = @ + 1]
            /\ IF stop THEN Fail /\ UNCHANGED pc ELSE pc' = pc + 1 /\ UNCHANGED <<open, mode, ret>>
            /\ UNCHANGED <<prog, stop, queue, names, cur, globs>>
GlobOK == /\ At("glob") /\ pc' = pc + 1 /\ globs' = globs + 1 /\ Enqueue(Item[2])
          /\ UNCHANGED <<prog, stop, cur, open, opens, faults, reports, mode, ret>>
GlobFails == /\ At("glob") /\ May /\ Fault("glob", cur, globs + 1) /\ globs' = globs + 1 /\ FileFails(<<"glob", cur>>)
             /\ UNCHANGED <<prog, stop, queue, names, pc, opens>>
ReadFails == /\ mode = "run" /\ cur # 0 /\ May /\ Fault("read", cur, pc) /\ FileFails(<<"read", cur>>)
             /\ UNCHANGED <<prog, stop, queue, names, pc, opens, globs>>
EndFile == /\ mode = "run" /\ cur # 0 /\ pc > Len(prog[cur]) /\ cur' = 0 /\ open' = <<>>
           /\ UNCHANGED <<prog, stop, queue, names, pc, opens, globs, faults, reports, mode, ret>>
Return == /\ mode = "run" /\ cur = 0 /\ queue = <<>> /\ mode' = "returned"
          /\ UNCHANGED <<prog, stop, queue, names, cur, pc, open, opens, globs, faults, reports, ret>>

Next == OpenOK \/ OpenFails \/ Bad \/ IncOK \/ IncFails \/ GlobOK \/ GlobFails \/ ReadFails \/ EndFile \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-------------------------------------------------------------------------------
\* nothing stays open; at most one file is open at a time
Closed == (mode = "returned" => open = <<>>) /\ Len(open) <= 1
\* no fault is swallowed
Told == mode = "returned" => \A i \in 1 .. Len(faults) : ret \/ <<faults[i].o, faults[i].n>> \in reports
\* every file is read once at most
Once == \A i, j \in 1 .. Len(names) : names[i] = names[j] => i = j
\* without faults all that is referred to is read
All == mode = "returned" /\ faults = <<>> /\ ~ret => \A f \in Reach(prog, {1}, N) : Known(f)
Ends == <>(mode = "returned")
===============================================================================
