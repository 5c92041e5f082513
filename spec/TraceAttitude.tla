--------------------------- MODULE TraceAttitude ----------------------------
(* Checks behaviours recorded from the real AttitudeEstimate against        *)
(* Attitude.                                                                *)
EXTENDS Attitude, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = [grav |-> 10, ba |-> Zero3, bg |-> Zero3, items |-> <<>>] /\ bad = {}
Bad(p, what) == {[p |-> p, w |-> ToString(what)]}
Vec(a, i) == <<a[i], a[i + 1], a[i + 2]>>

\* observed quaternions of the exact fragment are scaled by 1e6 per half unit; rounding of a long chain of products is far below 200
Close(q, o) == \E sg \in {1, -1} : \A i \in 1..4 : Abs(o[i]) <= 3000000 /\ Abs(o[i] - sg * q[i] * 1000000) <= 200
ItemsBad(v, o, p) ==
    IF Len(o) # Len(v.items) THEN Bad(p, "number of samples")
    ELSE IF \E k \in 1..Len(o) : o[k].t # v.items[k].t THEN Bad(p, "sample times")
    ELSE IF \E k \in 1..Len(o) : ~Close(v.items[k].q, o[k].q) THEN Bad(p, "attitudes") ELSE {}

\* ---- first sample, any direction; a = gravity, bias, acceleration in 1e-3; o.q in 1e-4
RotRow(q, r) ==      \* row r of the rotation matrix of q (1e-4), in 1e-4
    LET w == q[1]  x == q[2]  y == q[3]  z == q[4] IN
    CASE r = 1 -> <<(w*w + x*x - y*y - z*z) \div 10000, (2*(x*y - w*z)) \div 10000, (2*(x*z + w*y)) \div 10000>>
      [] r = 2 -> <<(2*(x*y + w*z)) \div 10000, (w*w - x*x + y*y - z*z) \div 10000, (2*(y*z - w*x)) \div 10000>>
      [] r = 3 -> <<(2*(x*z - w*y)) \div 10000, (2*(y*z + w*x)) \div 10000, (w*w - x*x - y*y + z*z) \div 10000>>
InitBad(a, o) ==
    LET g == a[1]  n == Abs(a[7] - a[4])  u == Sub(Vec(a, 5), Vec(a, 2))  n2 == Dot(u, u)
        must == (g - 39) * (g - 39) <= n2 /\ n2 <= (g + 39) * (g + 39)
        mustNot == n2 < (g - 41) * (g - 41) \/ n2 > (g + 41) * (g + 41)
    IN IF (must /\ ~o.ret) \/ (mustNot /\ o.ret) THEN Bad("A01", "acceptance")
       ELSE IF ~o.ret THEN (IF o.n # 0 THEN Bad("A01", "refused sample stored") ELSE {})
       ELSE IF o.n # 1 THEN Bad("A01", "accepted sample not stored")
       ELSE IF \E i \in 1..4 : Abs(o.q[i]) > 10100 THEN Bad("A01", "not a finite unit quaternion")
       ELSE IF Abs(QNorm4(o.q) - 100000000) > 60000 THEN Bad("A01", "not a unit quaternion")
       ELSE LET x == Dot(RotRow(o.q, 1), u) \div 10000  y == Dot(RotRow(o.q, 2), u) \div 10000  z == Dot(RotRow(o.q, 3), u) \div 10000 IN
            \* within 5 mrad of upside-down single precision leaves the turning axis to 10 mrad
            LET tol == IF u[3] < 0 /\ Abs(u[1]) * 200 <= n /\ Abs(u[2]) * 200 <= n THEN n \div 90 ELSE 15 IN
            IF Abs(x) > tol \/ Abs(y) > tol \/ z < g - 60 THEN Bad("A01", <<"gravity not on the vertical", x, y, z>>) ELSE {}

\* ---- one sample after a level start; a = t0, dt, w0, w1, ba, bg, a1; o.q relative turn at 1e8
StepBad(a, o) ==
    LET dt == a[2]
        S == Sub(Add(Vec(a, 3), Vec(a, 6)), Scale(2, Vec(a, 12)))
        u == Sub(Vec(a, 15), Vec(a, 9))                          \* corrected acceleration, 1e-3
        h == [k \in 1..3 |-> (S[k] * dt) \div 400]
        e == Cross(u, <<0, 0, 1>>)                               \* direction of the correction: (u2, -u1, 0)
        inr == \A k \in 1..4 : Abs(o.q[k]) <= 110000000
        sg == IF o.q[1] < 0 THEN -1 ELSE 1
        c == [k \in 1..3 |-> sg * o.q[k + 1] - h[k]]             \* turn beyond the measured rate, half angle 1e-8
        slack(k) == Abs(h[k]) \div 3000 + 40
        lim == dt \div 2 + 40                                   \* at most 0.01 rad/s of correction
    IN IF ~o.ret \/ o.n # 2 THEN Bad("A02", "sample not accepted")
       ELSE IF ~inr THEN Bad("A02", "not finite")
       ELSE IF \E k \in 1..3 : Abs(c[k]) > slack(k) + lim THEN Bad("A02", <<"turn differs from the measured rate", c>>)
       ELSE IF e = Zero3 /\ \E k \in 1..3 : Abs(c[k]) > slack(k) THEN Bad("A02", <<"turned without reason", c>>)
       \* pulled in the direction that moves the predicted vertical towards the measurement, when that is visible
       ELSE IF h = Zero3 /\ (Abs(e[1]) > 3000 /\ Abs(c[1]) > 40 /\ c[1] * (IF e[1] > 0 THEN 1 ELSE -1) < 0) THEN Bad("A02", <<"pulled away from the vertical", c>>)
       ELSE IF h = Zero3 /\ (Abs(e[2]) > 3000 /\ Abs(c[2]) > 40 /\ c[2] * (IF e[2] > 0 THEN 1 ELSE -1) < 0) THEN Bad("A02", <<"pulled away from the vertical", c>>)
       ELSE IF h = Zero3 /\ dt >= 1000000 /\ (Abs(e[1]) > 3000 \/ Abs(e[2]) > 3000) /\ (\A k \in 1..3 : Abs(c[k]) <= 400) THEN Bad("A02", <<"not pulled at all", c>>)
       ELSE {}

\* many samples in a row, seven numbers each
RECURSIVE Burst(_, _, _)
Burst(v, a, ret) ==
    IF a = <<>> THEN [v |-> v, ret |-> ret]
    ELSE LET x == Vec(a, 2)
             ok == Accepts(v, a[1], x)
         IN Burst(TLCEval(Propagate(v, a[1], x, Vec(a, 5))), TLCEval(SubSeq(a, 8, Len(a))), Append(ret, IF ok THEN 1 ELSE 0))

\* a tilt that is measured all the time without turning is slowly reduced, by the direct way
SettleBad(a, o) ==
    IF ~o.ret \/ o.n # a[1] + 1 THEN Bad("A02", "sample not accepted")
    ELSE IF o.after > o.before - o.before \div 200 THEN Bad("A02", <<"a measured tilt is not reduced", o>>)
    ELSE IF o.after < o.before \div 3 THEN Bad("A02", <<"corrected too strongly", o>>)
    ELSE IF Abs(o.turn - o.along) > o.turn \div 20 + 50 THEN Bad("A02", <<"not corrected by the direct way", o>>) ELSE {}

Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "cfg" -> s' = [s EXCEPT !.grav = a[3]] /\ bad' = {}
         [] e.op = "bias" -> s' = [s EXCEPT !.ba = Vec(a, 1), !.bg = Vec(a, 4)] /\ bad' = {}
         [] e.op = "prop" ->
              LET v == Propagate(s, a[1], Vec(a, 2), Vec(a, 5))
                  p == IF s.items = <<>> THEN "A01" ELSE "A02" IN
              /\ IF s.items = <<>> \/ ~Accepts(s, a[1], Vec(a, 2)) THEN TRUE
                 ELSE Assert(DeltaOk(Theta(s, a[1], Vec(a, 5))) /\ Uncorrected(s, Vec(a, 2)), "scenario outside the exact fragment")
              /\ s' = v
              /\ bad' = ItemsBad(v, o.items, p) \cup (IF o.ret # Accepts(s, a[1], Vec(a, 2)) THEN Bad(p, "acceptance") ELSE {})
         [] e.op = "burst" ->
              LET r == Burst(s, a, <<>>) IN
              /\ s' = r.v
              /\ bad' = ItemsBad(r.v, o.items, "A02") \cup (IF o.ret # r.ret THEN Bad("A02", "acceptance") ELSE {})
         [] e.op = "settle" -> s' = s /\ bad' = SettleBad(a, o)
         [] e.op = "get" ->
              /\ s' = s
              /\ bad' = ItemsBad(s, o.items, "A03")
                    \cup (IF o.ret # Found(s, a[1], a[2]) THEN Bad("A03", "found or not")
                          ELSE IF ~o.ret THEN (IF o.q # <<18000000, 18000000, 18000000, 18000000>> THEN Bad("A03", "output touched") ELSE {})
                          ELSE IF ~\E k \in Nearest(s, a[1]) : Close(s.items[k].q, o.q) THEN Bad("A03", "not the nearest sample") ELSE {})
         [] e.op = "clean" ->
              LET v == Clean(s, a[1], a[2]) IN s' = v /\ bad' = ItemsBad(v, o.items, "A04")
         [] e.op = "init" -> s' = s /\ bad' = InitBad(a, o)
         [] e.op = "step" -> s' = s /\ bad' = StepBad(a, o)
         [] OTHER -> s' = s /\ bad' = Bad("*", <<"crash or hang", o>>)
Spec == Init /\ [][Next]_vars

For(ps) == \A b \in bad : b.p \notin ps
Conf_A01 == For({"A01", "*"})
Conf_A02 == For({"A02", "*"})
Conf_A03 == For({"A03", "*"})
Conf_A04 == For({"A04", "*"})
=============================================================================
