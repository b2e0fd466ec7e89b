------------------------------- MODULE MC_Cycle -------------------------------
(* Every include graph on N files: discovery from the main file, one file per  *)
(* step, and then the removal of files nothing refers to any more.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Export
File == 1 .. N      \* 1 is the main file

VARIABLES adj,      \* what each file includes
          queue, found, parsed,   \* discovery
          indeg, ready, gone, pc
vars == <<adj, queue, found, parsed, indeg, ready, gone, pc>>

Init == /\ adj \in [File -> SUBSET File]
        /\ queue = <<1>> /\ found = {1} /\ parsed = <<>>
        /\ indeg = [f \in File |-> 0] /\ ready = {} /\ gone = {} /\ pc = "parse"

RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o InOrder(S \ {x})

ParseOne ==
    /\ pc = "parse" /\ queue # <<>>
    /\ LET f == Head(queue) new == adj[f] \ found IN
       /\ queue' = Tail(queue) \o InOrder(new)
       /\ found' = found \cup adj[f]
       /\ parsed' = Append(parsed, f)
       /\ indeg' = [g \in File |-> indeg[g] + (IF g \in adj[f] THEN 1 ELSE 0)]
    /\ UNCHANGED <<adj, ready, gone, pc>>
StartSort == /\ pc = "parse" /\ queue = <<>> /\ pc' = "sort"
             /\ ready' = {f \in found : indeg[f] = 0}
             /\ UNCHANGED <<adj, queue, found, parsed, indeg, gone>>
Sort == /\ pc = "sort" /\ ready # {}
        /\ LET f == CHOOSE f \in ready : TRUE
               d == [g \in File |-> indeg[g] - (IF g \in adj[f] THEN 1 ELSE 0)] IN
           /\ indeg' = d /\ gone' = gone \cup {f}
           /\ ready' = (ready \ {f}) \cup {g \in adj[f] : d[g] = 0}
        /\ UNCHANGED <<adj, queue, found, parsed, pc>>
Verdict == pc = "sort" /\ ready = {} /\ pc' = (IF gone = found THEN "ok" ELSE "cycle")
           /\ UNCHANGED <<adj, queue, found, parsed, indeg, ready, gone>>
Next == ParseOne \/ StartSort \/ Sort \/ Verdict
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-------------------------------------------------------------------------------
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {adj[f] : f \in S}, k - 1)
SelfIncluding == \E f \in Reach({1}, N) : f \in Reach(adj[f], N)

TypeOK == found \subseteq File /\ Len(parsed) <= N
OnceEach == \A i, j \in 1 .. Len(parsed) : parsed[i] = parsed[j] => i = j
AllFound == pc # "parse" => {parsed[i] : i \in 1 .. Len(parsed)} = Reach({1}, N)
CycleIff == pc \in {"ok", "cycle"} => (pc = "cycle" <=> SelfIncluding)
InDegrees == pc = "parse" => \A g \in File : indeg[g] = Cardinality({i \in 1 .. Len(parsed) : g \in adj[parsed[i]]})
Terminates == <>(pc \in {"ok", "cycle"})

ExportVec == Export /\ pc \in {"ok", "cycle"} => PrintT(ToJson([a |-> [f \in File |-> InOrder(adj[f])], o |-> parsed, c |-> pc = "cycle"]))
===============================================================================
