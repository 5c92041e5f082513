---------------------------- MODULE TraceGeometry ---------------------------
(* Judges recorded triangulations and pose estimations.  Whether a point is *)
(* in front of a view, and whether the views enclose enough of an angle,    *)
(* is decided exactly; real-valued results arrive as rounded integers.      *)
EXTENDS Geometry, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
\* thr: squared residual in 1e-8, share: of the points in 1/1000
S0 == [vs |-> <<>>, n |-> 0, thr |-> 100000, iters |-> 20, share |-> 900,
       plain |-> <<0, 0>>, won |-> 0, lost |-> 0]        \* one gross outlier: error of the plain result, tally of the robust one
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = S0 /\ bad = {}
Bad(ps, what) == {[p |-> p, w |-> ToString(what)] : p \in ps}
If(c, b) == IF c THEN b ELSE {}
P3(a, i) == <<a[i], a[i + 1], a[i + 2]>>
ViewsOf(a) == [k \in 1..(Len(a) \div 7) |-> [q |-> <<a[7 * k - 6], a[7 * k - 5], a[7 * k - 4], a[7 * k - 3]>>, c |-> P3(a, 7 * k - 2)]]
TriTol(P) == IF \E i \in 1..3 : Abs(P[i]) > 30 THEN 30000 ELSE 200    \* 1e-6 of the distance; far from the origin single precision costs more
TriBad(P, o) ==
    LET ok == TriOk(s.vs, P)
        \* too little parallax: rounding may take the point anywhere
        sure == Len(s.vs) < 2 \/ Solid(s.vs, P, 10)
    IN IF ~sure THEN {}
       ELSE If(o.ret # ok, Bad({"G01"}, <<"triangulation", IF ok THEN "failed" ELSE IF Len(s.vs) < 2 THEN "with too few views" ELSE "of a point behind a view", o.rel>>))
            \cup If(ok /\ o.ret /\ o.rel > TriTol(P), Bad({"G01"}, <<"not the true point", o.rel, o.err>>))
\* a = P, start, noise, seed; a start within a tenth of the truth of a noise-free scene has to end there
IterBad(a, o) ==
    LET P == P3(a, 1)
        st == P3(a, 4)
        off == Sub(st, Scale(16, P))               \* in 1/64 m
        near == Dot(off, off) * 100 <= Dot(st, st)
        \* the parametrisation divides by the height above the plane z = 0 of the world
        fit == Abs(P[3]) * 4 >= Abs(P[1]) + Abs(P[2]) /\ TriOk(s.vs, P) /\ Solid(s.vs, P, 5)
    IN If(o.c0 < 2000000000 /\ o.rise > 1001000, Bad({"G02"}, <<"error raised", o.c0, o.c1>>))
       \cup If(off = Zero3 /\ a[7] = 0 /\ fit /\ o.rel > 40, Bad({"G02"}, <<"the true point moved", o.rel>>))
       \cup If(near /\ a[7] = 0 /\ fit /\ o.rel > 40, Bad({"G02"}, <<"the true point is not found", o.rel>>))
       \cup If(near /\ a[7] # 0 /\ a[7] <= 300 /\ fit /\ o.truth > 1050000, Bad({"G02"}, <<"worse than the true point", o.truth>>))
Cnt(r, m) == Cardinality({i \in 1..Len(r) : r[i] <= m})
\* a = variant, q(4), c(3), offset(6), noise, seed, extra, outliers...
SolveBad(a, o) ==
    LET var == a[1]
        v == [q |-> <<a[2], a[3], a[4], a[5]>>, c |-> P3(a, 6)]
        extra == a[17]
        outs == {a[15 + 3 * k] + 1 : k \in 1..((Len(a) - 17) \div 3)}
        far == \E i \in 9..14 : Abs(a[i]) > (IF i < 12 THEN 300 ELSE 100)
        noise == a[15]
        refuse == extra # 0 \/ IF var <= 1 THEN s.n = 0 ELSE s.n < 3
        id == IF var <= 1 THEN "G03" ELSE "G04"
        slack == s.thr \div 500 + 2
        sure == Cnt(o.r0, s.thr - slack)                 \* agree with the start, beyond rounding
        now == Cnt(o.r1, s.thr + slack)
    IN IF refuse THEN If(o.ret, Bad({id}, "malformed input accepted")) \cup If(~o.same, Bad({id}, "pose touched although refused"))
       ELSE IF var <= 1 THEN
            LET fit == s.n >= 8 IN
            If(~fit, {})
            \cup If(fit /\ ~o.ret, Bad({"G03"}, "failed"))
            \cup If(fit /\ o.unit > 20, Bad({"G03"}, "orientation is not a unit quaternion"))
            \cup If(fit /\ outs = {} /\ noise = 0 /\ (o.ep > 300 \/ o.eq > 100), Bad({"G03"}, <<"the true pose is not found", o.ep, o.eq>>))
            \cup If(fit /\ outs = {} /\ noise # 0 /\ o.truth > 1020000, Bad({"G03"}, <<"worse than the true pose", o.truth>>))
       ELSE If(~o.ret, Bad({"G04"}, "failed"))
            \cup If(now < sure, Bad({"G04"}, <<"fewer points agree than with the start", sure, now>>))
            \cup (IF var = 3 THEN
                    IF Len(o.mask) # s.n THEN Bad({"G04"}, <<"length of the mask", Len(o.mask), s.n>>)
                    ELSE If(\E i \in 1..s.n : (o.r1[i] < s.thr - slack /\ o.mask[i] # 1) \/ (o.r1[i] > s.thr + slack /\ o.mask[i] # 0), Bad({"G04"}, "mask"))
                  ELSE {})
            \cup (IF s.n >= 10 /\ noise = 0 /\ 5 * Cardinality(outs) <= s.n /\ s.iters >= 20 /\ ~far /\ 2 * sure >= s.n
                  THEN LET in == {i \in 1..s.n : i \notin outs} IN
                       If(now * 1000 <= s.share * s.n /\ \E i \in in : o.r1[i] > s.thr + slack,
                          Bad({"G04"}, <<"inliers missed", Cardinality({i \in in : o.r1[i] > s.thr + slack}), now, s.n>>))
                  ELSE {})

\* the robust result after the plain one on the same problem with one outlier
Tally(a, o) == IF Len(a) # 20 THEN s
               ELSE IF a[1] = 0 THEN [s EXCEPT !.plain = <<o.ep, o.eq>>]
               ELSE IF a[1] = 1 THEN IF o.ep < 9 * (s.plain[1] \div 10) \/ o.eq < 9 * (s.plain[2] \div 10)
                                     THEN [s EXCEPT !.won = @ + 1] ELSE [s EXCEPT !.lost = @ + 1]
               ELSE s
Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "views" -> s' = [s EXCEPT !.vs = ViewsOf(a)] /\ bad' = {}
         [] e.op = "points" -> s' = [s EXCEPT !.n = Len(a) \div 3] /\ bad' = {}
         [] e.op = "param" -> s' = [s EXCEPT !.thr = a[1] * 1000, !.iters = a[2], !.share = a[3]] /\ bad' = {}
         [] e.op = "tri" -> s' = s /\ bad' = TriBad(P3(a, 1), o)
         [] e.op = "iter" -> s' = s /\ bad' = IterBad(a, o)
         [] e.op = "solve" -> s' = Tally(a, o) /\ bad' = SolveBad(a, o)
         [] e.op = "tally" -> s' = [s EXCEPT !.won = 0, !.lost = 0]
                              /\ bad' = If(s.won + s.lost >= 8 /\ s.lost > 2, Bad({"G03"}, <<"an outlier shifts the robust result as much as the plain one", s.won, s.lost>>))
         [] e.op = "crash" -> s' = s /\ bad' = Bad({"*"}, <<"crash or hang", o>>)
         [] OTHER -> s' = s /\ bad' = {}
Spec == Init /\ [][Next]_vars
For(ps) == \A b \in bad : b.p \notin ps
Conf_G01 == For({"G01", "*"})
Conf_G02 == For({"G02", "*"})
Conf_G03 == For({"G03", "*"})
Conf_G04 == For({"G04", "*"})
=============================================================================
