---------------------------- MODULE GenSchedule -----------------------------
(* Schedules: for every image, how many later samples run ahead of it and  *)
(* whether the estimator steps at once or when more has arrived.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Lags
VARIABLE log
Init == log = <<>>
Next == /\ Len(log) < Depth
        /\ \E k \in Lags, d \in BOOLEAN : log' = Append(log, [lag |-> k, now |-> d])
Spec == Init /\ [][Next]_log
Emit == Len(log) = Depth => PrintT("@@" \o ToJson(log))
=============================================================================
