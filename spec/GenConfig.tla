------------------------------ MODULE GenConfig -----------------------------
(* Every sequence of Depth edits (which file, what becomes of it), each     *)
(* followed by a load.  Kinds: 0 removed, 1 complete, 2 complete with more  *)
(* behind it, 3 a row missing, 4 a number missing, 5 junk instead of the    *)
(* last number, 6 empty, 7 a blank line first.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Files
VARIABLE log
Init == log = <<>>
Next == /\ Len(log) < Depth
        /\ \E f \in 0..(Files - 1), k \in 0..7 : log' = Append(log, [file |-> f, kind |-> k])
Spec == Init /\ [][Next]_log
Emit == Len(log) = Depth => PrintT("@@" \o ToJson(log))
=============================================================================
