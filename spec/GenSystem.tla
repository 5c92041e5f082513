----------------------------- MODULE GenSystem ------------------------------
(* Histories of images: how many features each shows and how (kind), and   *)
(* what happens before it (pre): nothing, an inertial outage that ends     *)
(* only after the image, one that ends just before it, or a reset.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Kinds, Pres
VARIABLE log
Init == log = <<>>
Next == /\ Len(log) < Depth
        /\ \E k \in Kinds, p \in Pres : (Len(log) = 0 => p # "reset") /\ log' = Append(log, [kind |-> k, pre |-> p])
Spec == Init /\ [][Next]_log
Emit == Len(log) = Depth => PrintT("@@" \o ToJson(log))
=============================================================================
