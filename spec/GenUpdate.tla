------------------------------ MODULE GenUpdate -----------------------------
(* Histories of images: what information each carries (kind), whether    *)
(* the frame before it counts as a keyframe (which decides what is dropped). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES log, win, cams, n
vars == <<log, win, cams, n>>
Init == log = <<>> /\ win \in 1..3 /\ cams \in 1..2 /\ n = 0
\* kinds: 0 no usable feature, 1 one wrong quantity, 2 perfect measurement, 3 measurement without weight
Frames == IF n <= win THEN n ELSE win      \* frames in the window before the next image
Kinds == IF Frames = 0 THEN {0} ELSE IF Frames = 1 /\ cams = 1 THEN {0, 2, 3} ELSE {0, 1, 2, 3}
Next == /\ n < Depth
        /\ \E k \in Kinds, key \in 0..1 :
             /\ (n < win => key = 0)
             /\ log' = Append(log, [kind |-> k, key |-> key])
        /\ n' = n + 1 /\ UNCHANGED <<win, cams>>
Spec == Init /\ [][Next]_vars
Emit == n = Depth => PrintT("@@" \o ToJson([win |-> win, cams |-> cams, im |-> log]))
=============================================================================
