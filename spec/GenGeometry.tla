----------------------------- MODULE GenGeometry ----------------------------
(* Every sequence of triangulations up to Depth with up to MaxViews views,  *)
(* each view in front of or behind the point.  One triangulator serves the  *)
(* whole sequence, so its scratch memory meets every change of size.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, MaxViews
VARIABLE log
Init == log = <<>>
Sides == UNION {[1..n -> {0, 1}] : n \in 0..MaxViews}     \* 1: the point is behind this view
Next == /\ Len(log) < Depth
        /\ \E v \in Sides : log' = Append(log, [behind |-> [i \in 1..Len(v) |-> v[i]]])
Spec == Init /\ [][Next]_log
Emit == Len(log) = Depth => PrintT("@@" \o ToJson(log))
=============================================================================
