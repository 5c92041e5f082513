----------------------------- MODULE MCAttitude -----------------------------
(* Exhaustive check of Attitude, and of the search the code uses for look-  *)
(* ups (bounds first, then backwards from the newest) against the           *)
(* definition by nearest sample.                                            *)
EXTENDS Attitude, FiniteSets
CONSTANT Depth
VARIABLES s, n, last
vars == <<s, n, last>>
S0 == [grav |-> 10, ba |-> Zero3, bg |-> Zero3, items |-> <<>>]
Init == s = S0 /\ n = 0 /\ last = <<"init", 0, 0, S0>>
T == IF s.items = <<>> THEN 0 ELSE s.items[Len(s.items)].t
Up == IF s.items = <<>> THEN <<0, 0, 10>> ELSE Scale(10, Vertical(s.items[Len(s.items)].q))
G(r, dt) == IF s.items = <<>> THEN Zero3 ELSE Sub(Scale(2, r), s.items[Len(s.items)].g)
Do(k, t, h, v) == s' = v /\ n' = n + 1 /\ last' = <<k, t, h, s>>
Prop == \E dt \in {-1, 1, 2}, d \in {<<2, 2, 2>>, <<2, -2, -2>>} :
            LET r == IF dt = 2 THEN [k \in 1..3 |-> d[k] \div 2] ELSE d IN
            Do("prop", T + dt, 0, Propagate(s, T + dt, Add(s.ba, Up), G(r, dt)))
CleanIt == \E t \in 2 * T - 2 .. 2 * T + 3, h \in {0, 1, 3} : Do("clean", t, h, Clean(s, t, h))
Next == n < Depth /\ (Prop \/ CleanIt)
Spec == Init /\ [][Next]_vars
Times == \A i \in 1..(Len(s.items) - 1) : s.items[i].t <= s.items[i + 1].t
UnitQ == \A k \in 1..Len(s.items) : QNorm4(s.items[k].q) = 4
\* trimming keeps a suffix, all of it recent enough, and drops only outdated samples (times are ordered)
Trim == last[1] = "clean" =>
    LET b == last[4].items IN
    \E k \in 0..Len(b) : /\ s.items = SubSeq(b, k + 1, Len(b))
                         /\ \A i \in 1..Len(b) : (last[2] - 2 * b[i].t > last[3]) <=> i <= k
\* the search of the code: index found or 0
Search(t2, thr2) ==
    LET m == Len(s.items)
        idx == {i \in 1..m : 2 * s.items[i].t <= t2}
        it == CHOOSE i \in idx : \A j \in idx : j <= i
    IN IF m = 0 THEN 0
       ELSE IF 2 * s.items[m].t <= t2 THEN (IF Dist(s, m, t2) < thr2 THEN m ELSE 0)
       ELSE IF 2 * s.items[1].t >= t2 THEN (IF Dist(s, 1, t2) < thr2 THEN 1 ELSE 0)
       ELSE IF Dist(s, it + 1, t2) < Dist(s, it, t2) /\ Dist(s, it + 1, t2) < thr2 THEN it + 1
       ELSE IF Dist(s, it, t2) < thr2 THEN it ELSE 0
Lookup == \A t2 \in -3 .. 2 * T + 3, thr2 \in 0..4 :
    LET k == Search(t2, thr2) IN (k # 0 <=> Found(s, t2, thr2)) /\ (k # 0 => k \in Nearest(s, t2))
=============================================================================
