-------------------------------- MODULE NgxChan --------------------------------
(* How a call's goroutines work together: the source hands out the text in     *)
(* chunks, the lexer turns what it has read into tokens and sends them through  *)
(* a channel of some capacity (0: rendezvous), the parser receives them.  When  *)
(* the parser gives up on a token (stopping on the first error) it empties the  *)
(* channel before it returns.  Lua blocks are lexed by a second producer, whose *)
(* channel has no buffer and which the lexer forwards token by token.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxTok, MaxChunk, MaxCap,
    Drains    \* whether giving up empties the channel (the code does; without, see NeverStuck)
VARIABLE p    \* the call: [tok: tokens of the text, chunk: chunks of the text,
              \*  cap: capacity of the token channel, give: the parser gives up on this
              \*  token (0: never), from, to: tokens from the Lua lexer (0, 0: none)]
Calls == {q \in [tok : 0 .. MaxTok, chunk : 1 .. MaxChunk, cap : 0 .. MaxCap, give : 0 .. MaxTok, from : 0 .. MaxTok, to : 0 .. MaxTok] :
             /\ q.give <= q.tok /\ q.to <= q.tok
             /\ IF q.from = 0 THEN q.to = 0 ELSE q.to \in q.from .. q.from + 1}

\* chunks that have to be read before token i is complete
Need(i) == IF p.tok = 0 THEN p.chunk ELSE (i * p.chunk + p.tok - 1) \div p.tok
IsLua(i) == p.from > 0 /\ i \in p.from .. p.to

VARIABLES
    fed,      \* chunks the source has handed out
    made,     \* tokens the lexer has sent
    luamade,  \* tokens the Lua lexer has handed to the lexer
    buf,      \* tokens in the channel
    closed,   \* the channel is closed: the lexer's goroutine has ended
    luadone,  \* the Lua lexer's goroutine has ended (or never ran)
    got,      \* tokens the parser has received
    result,   \* what the parser has made of them
    mode,     \* "run", "drain", "returned"
    hist      \* the schedule as seen from outside
vars == <<p, fed, made, luamade, buf, closed, luadone, got, result, mode, hist>>

Init == /\ p \in Calls /\ fed = 0 /\ made = 0 /\ luamade = 0 /\ buf = <<>> /\ closed = FALSE /\ luadone = (p.from = 0)
        /\ got = 0 /\ result = <<>> /\ mode = "run" /\ hist = <<>>

Feed == /\ fed < p.chunk /\ fed' = fed + 1 /\ hist' = Append(hist, "F")
        /\ UNCHANGED <<p, made, luamade, buf, closed, luadone, got, result, mode>>

\* the Lua lexer hands its next token to the waiting lexer
LuaHand == /\ p.from > 0 /\ ~luadone
           /\ made >= p.from - 1 /\ luamade = made + 1 - p.from /\ made < p.to
           /\ fed >= Need(made + 1)
           /\ luamade' = luamade + 1
           /\ UNCHANGED <<p, fed, made, buf, closed, luadone, got, result, mode, hist>>
LuaEnd == /\ p.from > 0 /\ ~luadone /\ luamade = p.to - p.from + 1 /\ luadone' = TRUE
          /\ UNCHANGED <<p, fed, made, luamade, buf, closed, got, result, mode, hist>>

Ready(i) == i <= p.tok /\ fed >= Need(i) /\ (IsLua(i) => luamade = i - p.from + 1)
                                      /\ (~IsLua(i) /\ p.from > 0 /\ i > p.to => luadone)
SendBuffered == /\ Ready(made + 1) /\ Len(buf) < p.cap
                /\ buf' = Append(buf, made + 1) /\ made' = made + 1
                /\ UNCHANGED <<p, fed, luamade, closed, luadone, got, result, mode, hist>>

\* the parser takes token i
Receive(i) == /\ got' = got + 1
              /\ IF mode = "drain" THEN UNCHANGED <<result, mode>>
                 ELSE /\ result' = Append(result, i)
                      /\ mode' = IF i = p.give THEN (IF Drains THEN "drain" ELSE "returned") ELSE "run"
TakeBuffered == /\ mode # "returned" /\ buf # <<>>
                /\ Receive(buf[1]) /\ buf' = Tail(buf) /\ hist' = Append(hist, "T")
                /\ UNCHANGED <<p, fed, made, luamade, closed, luadone>>
Rendezvous == /\ mode # "returned" /\ p.cap = 0 /\ Ready(made + 1)
              /\ Receive(made + 1) /\ made' = made + 1 /\ hist' = Append(hist, "T")
              /\ UNCHANGED <<p, fed, luamade, buf, closed, luadone>>
LexEnd == /\ ~closed /\ made = p.tok /\ fed = p.chunk /\ luadone /\ closed' = TRUE
          /\ UNCHANGED <<p, fed, made, luamade, buf, luadone, got, result, mode, hist>>
Return == /\ mode # "returned" /\ closed /\ buf = <<>> /\ mode' = "returned"
          /\ UNCHANGED <<p, fed, made, luamade, buf, closed, luadone, got, result, hist>>

Next == Feed \/ LuaHand \/ LuaEnd \/ SendBuffered \/ TakeBuffered \/ Rendezvous \/ LexEnd \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-------------------------------------------------------------------------------
TypeOK == fed \in 0 .. p.chunk /\ made \in 0 .. p.tok /\ Len(buf) <= p.cap
\* nothing is lost, doubled or reordered on the way
Order == /\ got + Len(buf) = made
         /\ \A i \in 1 .. Len(buf) : buf[i] = got + i
         /\ \A i \in 1 .. Len(result) : result[i] = i
\* a token is seen only when its text has been handed out
Causal == \A i \in 1 .. got : fed >= Need(i)
\* what the call makes of the text does not depend on the schedule
Function == mode = "returned" => result = [i \in 1 .. (IF p.give > 0 THEN p.give ELSE p.tok) |-> i]
\* nothing is left running
Clean == mode = "returned" => closed /\ luadone
\* without draining, a call can return while its lexer waits for ever
Stuck == mode = "returned" /\ ~closed /\ ~ENABLED (SendBuffered \/ Rendezvous \/ LexEnd \/ LuaHand \/ LuaEnd \/ Feed)
NeverStuck == ~Stuck
Ends == <>(mode = "returned" /\ closed /\ luadone)
\* a call that has not returned can always go on
NoDeadlock == ENABLED Next \/ (mode = "returned" /\ closed /\ luadone)
===============================================================================
