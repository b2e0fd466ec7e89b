------------------------------- MODULE NgxPath -------------------------------
(* Unix file names: cleaning, joining, and the directory of a file.            *)
EXTENDS NgxChars

IsAbs(p) == HasPrefix(p, "/")

CleanPath(p) ==
    LET rooted == IsAbs(p)
        step(acc, x) ==
            IF x = "" \/ x = "." THEN acc
            ELSE IF x = ".."
                 THEN IF acc # <<>> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
                      ELSE IF rooted THEN acc ELSE Append(acc, x)
            ELSE Append(acc, x)
        parts == FoldLeft(step, <<>>, SplitAt(p, "/"))
        body  == JoinWith(parts, "/")
    IN IF rooted THEN "/" \o body ELSE IF body = "" THEN "." ELSE body

JoinPath(a, b) == IF a = "" THEN (IF b = "" THEN "" ELSE CleanPath(b))
                  ELSE IF b = "" THEN CleanPath(a) ELSE CleanPath(a \o "/" \o b)

DirOf(p) ==
    LET slashes == {i \in 1 .. Len(p) : Ch(p, i) = "/"}
    IN IF slashes = {} THEN "."
       ELSE CleanPath(SubSeq(p, 1, CHOOSE i \in slashes : \A j \in slashes : j <= i))

HasMagic(p) == HasAnyOf(p, {"*", "?", "["})
=============================================================================
