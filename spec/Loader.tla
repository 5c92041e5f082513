------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* The input buffer of the estimator: two queues (images, inertial         *)
(* samples) fed in any order and drained one message at a time or in       *)
(* packets.  Times are integers (ticks); a buffer delivers every message   *)
(* with its time shifted by a constant that the specification leaves open. *)
(*                                                                         *)
(* The transitions are functions of the state and the request, so that the *)
(* model checker (MCLoader), the scenario generator (GenLoader) and the    *)
(* trace checker (TraceLoader) all use the same definitions.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NONE == -2000000000                 \* "no time": smaller than every tick

Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

\* image:  [t |-> time, ids |-> <<feature ids>>]
\* sample: [t |-> time, v |-> <<value components>>]
EmptyBuffer == [feat |-> <<>>, imu |-> <<>>, lastF |-> NONE, lastI |-> NONE, period |-> 10486]

Clear(b) == [EmptyBuffer EXCEPT !.period = b.period]

\* ---- pushing
PushImage(b, m, nObs) ==
    IF Len(m.ids) # nObs THEN [b |-> b, ret |-> FALSE]
    ELSE IF m.t > b.lastF
         THEN [b |-> [b EXCEPT !.feat = Append(@, m), !.lastF = m.t], ret |-> TRUE]
         ELSE [b |-> b, ret |-> TRUE]

PushSample(b, m) ==
    IF m.t > b.lastI
    THEN [b |-> [b EXCEPT !.imu = Append(@, m), !.lastI = m.t], ret |-> TRUE]
    ELSE [b |-> b, ret |-> TRUE]

\* ---- popping single messages: result r = [b, ret, feat: <<>> or <<image>>, imu: sequence of samples]
PopOne(b) ==
    LET noF == b.feat = <<>>
        noI == b.imu = <<>>
    IN CASE noF /\ noI -> [b |-> b, ret |-> FALSE, feat |-> <<>>, imu |-> <<>>]
         [] noF /\ ~noI -> [b |-> [b EXCEPT !.imu = Tail(@)], ret |-> TRUE, feat |-> <<>>, imu |-> <<Head(b.imu)>>]
         [] ~noF /\ noI -> [b |-> [b EXCEPT !.feat = Tail(@)], ret |-> TRUE, feat |-> <<Head(b.feat)>>, imu |-> <<>>]
         [] OTHER ->
              LET f == Head(b.feat)
                  i == Head(b.imu)
              IN IF f.t > i.t
                 THEN [b |-> [b EXCEPT !.imu = Tail(@)], ret |-> TRUE, feat |-> <<>>, imu |-> <<i>>]
                 ELSE IF i.t - f.t < b.period
                      THEN [b |-> [b EXCEPT !.imu = Tail(@), !.feat = Tail(@)], ret |-> TRUE, feat |-> <<f>>, imu |-> <<i>>]
                      ELSE [b |-> [b EXCEPT !.feat = Tail(@)], ret |-> TRUE, feat |-> <<f>>, imu |-> <<>>]

\* ---- popping packets
SameTime == 2          \* ticks that count as "the same time" (a microsecond)

NumUpTo(q, t) == LET RECURSIVE n(_)
                     n(k) == IF k < Len(q) /\ q[k + 1].t <= t THEN n(k + 1) ELSE k
                 IN n(0)

\* kind = "none": nothing to deliver yet; "drop": the image is discarded; "exact": the packet ends with an existing
\* sample; "mid": it ends with a sample interpolated at the image time between samples left and right.
PackedKind(b) ==
    IF b.feat = <<>> \/ b.imu = <<>> THEN "none"
    ELSE LET f == Head(b.feat) IN
         IF b.imu[Len(b.imu)].t <= f.t THEN "none"
         ELSE IF Head(b.imu).t >= f.t THEN "drop"
         ELSE LET n == NumUpTo(b.imu, f.t)
              IN IF f.t - b.imu[n].t <= SameTime THEN "exact" ELSE "mid"

\* The packet without the interpolated sample
PackedBody(b) == SubSeq(b.imu, 1, NumUpTo(b.imu, Head(b.feat).t))
PackedRest(b) == SubSeq(b.imu, NumUpTo(b.imu, Head(b.feat).t) + 1, Len(b.imu))

\* The buffer after a packed pop whose boundary sample is s
AfterPacked(b, kind, s) ==
    CASE kind = "none" -> b
      [] kind = "drop" -> [b EXCEPT !.feat = Tail(@)]
      [] kind \in {"exact", "mid"} -> [b EXCEPT !.feat = Tail(@), !.imu = <<s>> \o PackedRest(b)]

\* value v at time t lies on the line from (a.t, a.v) to (c.t, c.v), up to a rounding of `tol`
\* (long intervals are scaled down so that the products fit TLC's integers)
OnLine(a, c, t, v, tol) ==
    LET g == (c.t - a.t) \div 20000 + 1
        C == (c.t - a.t) \div g
        A == (t - a.t) \div g
        slack == tol + (IF g > 1 THEN 10 ELSE 0)
    IN \A k \in 1..Len(v) :
          /\ Abs(v[k]) <= 100000
          /\ Abs((v[k] - a.v[k]) * C - (c.v[k] - a.v[k]) * A) <= slack * C

Sorted(q) == \A k \in 1..(Len(q) - 1) : q[k].t < q[k + 1].t
=============================================================================
