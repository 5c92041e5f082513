------------------------------ MODULE Attitude ------------------------------
(***************************************************************************)
(* The attitude estimator: a time-ordered history of attitudes.            *)
(* Quaternions in half units (Hurwitz units), times in tau, rates in       *)
(* 1/tau, accelerations in m/s^2, gravity along the world's z axis.        *)
(* Samples whose corrected acceleration is parallel to the predicted       *)
(* vertical (or zero) receive no correction, so tracking is exact on them. *)
(*                                                                         *)
(* s = [grav, ba, bg, items |-> sequence of [t, g, q]]                     *)
(***************************************************************************)
EXTENDS Quat

Level(s, a) == Sub(a, s.ba) = <<0, 0, s.grav>>
Parallel(u, v) == Cross(u, v) = Zero3 /\ (u = Zero3 \/ Dot(u, v) > 0)
Vertical(q) == Turn(QConj(q), <<0, 0, 1>>)           \* the world's vertical in the body frame
Uncorrected(s, a) == LET u == Sub(a, s.ba) IN u = Zero3 \/ Parallel(u, Vertical(s.items[Len(s.items)].q))
Theta(s, t, g) == LET i0 == s.items[Len(s.items)]
                      r == Scale(t - i0.t, Sub(Add(i0.g, g), Scale(2, s.bg))) IN [k \in 1..3 |-> r[k] \div 2]
\* a further sample: refused if older than the newest
Accepts(s, t, a) == IF s.items = <<>> THEN Level(s, a) ELSE s.items[Len(s.items)].t <= t
Propagate(s, t, a, g) ==
    IF ~Accepts(s, t, a) THEN s
    ELSE IF s.items = <<>> THEN [s EXCEPT !.items = <<[t |-> t, g |-> g, q |-> QId]>>]
    ELSE [s EXCEPT !.items = Append(@, [t |-> t, g |-> g, q |-> QMul(@[Len(@)].q, Delta(Theta(s, t, g)))])]
\* look-up; t2 and thr2 in half time units
Dist(s, k, t2) == Abs(2 * s.items[k].t - t2)
Nearest(s, t2) ==      \* indices of the nearest samples; the earlier time on a tie
    LET near == {k \in 1..Len(s.items) : \A j \in 1..Len(s.items) : Dist(s, k, t2) <= Dist(s, j, t2)}
    IN {k \in near : \A j \in near : s.items[k].t <= s.items[j].t}
Found(s, t2, thr2) == \E k \in Nearest(s, t2) : Dist(s, k, t2) < thr2
RECURSIVE Drop(_, _, _)
Drop(items, t2, thr2) == IF items = <<>> \/ t2 - 2 * items[1].t <= thr2 THEN items ELSE Drop(Tail(items), t2, thr2)
Clean(s, t2, thr2) == [s EXCEPT !.items = Drop(@, t2, thr2)]
=============================================================================
