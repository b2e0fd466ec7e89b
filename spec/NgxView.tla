-------------------------------- MODULE NgxView --------------------------------
(* What a directive says of itself, and the creator that keeps files in memory. *)
EXTENDS NgxChars

\* x: a directive as in NgxParse (hb, hi, hc: there is a block, a list of includes, a comment)
Says(x) == [ block   |-> x.hb,
             include |-> x.d = "include" /\ x.hi,
             comment |-> x.d = "#" /\ x.hc,
             text    |-> x.d \o " " \o JoinWith(x.a, " ") \o (IF x.b = <<>> THEN "" ELSE " {...}") ]
RECURSIVE Flatten(_)
Flatten(ds) == IF ds = <<>> THEN <<>> ELSE <<Head(ds)>> \o Flatten(Head(ds).b) \o Flatten(Tail(ds))
ViewsOf(ds) == LET f == Flatten(ds) IN [i \in 1 .. Len(f) |-> Says(f[i])]

-------------------------------------------------------------------------------
\* The creator.  handles: every file handed out, in order; held: the handles since the last reset;
\* old: those of the lists taken before the resets, one after the other.
\* a step is [o, h, x]: create a file named x; write x to handle h; close handle h; reset
NoFiles == [handles |-> <<>>, held |-> <<>>, old |-> <<>>]
Do(s, t) ==
    CASE t.o = "create" -> [s EXCEPT !.handles = Append(@, [n |-> t.x, x |-> ""]), !.held = Append(@, Len(s.handles) + 1)]
      [] t.o = "write"  -> [s EXCEPT !.handles[t.h].x = @ \o t.x]
      [] t.o = "close"  -> [s EXCEPT !.handles[t.h].x = @ \o "\n"]
      [] t.o = "reset"  -> [s EXCEPT !.held = <<>>, !.old = @ \o s.held]
Listed(s) == [i \in 1 .. Len(s.held) |-> s.handles[s.held[i]]]
Earlier(s) == [i \in 1 .. Len(s.old) |-> s.handles[s.old[i]]]
RECURSIVE DoAll(_, _)
DoAll(s, ts) == IF ts = <<>> THEN s ELSE DoAll(Do(s, Head(ts)), Tail(ts))
===============================================================================
