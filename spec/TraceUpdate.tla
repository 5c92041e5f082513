---------------------------- MODULE TraceUpdate -----------------------------
(* Judges updates of the real MultiViewVisionUpdate, recorded on scenes     *)
(* with known truth.  kind of an update (known from how the image was       *)
(* made): 0 nothing usable, 1 one wrong and uncertain quantity with precise *)
(* measurements, 2 everything right and uncertain (4: few measurements),    *)
(* 3 measurements without weight, 5 one wrong and uncertain direction and   *)
(* measurements about as uncertain, 6 several independent ones.  Errors are truth minus estimate in 1e-7, variances in 1e-9.     *)
EXTENDS Covariance, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
\* cov: the joint covariance if it is known exactly, else <<>>; wrong: indices made wrong since the last state
S0 == [cams |-> 0, n |-> 0, win |-> 0, key |-> FALSE, cov |-> <<>>, wrong |-> {}, runs |-> {}]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = S0 /\ bad = {}
Bad(ps, what) == {[p |-> p, w |-> ToString(what)] : p \in ps}
If(c, b) == IF c THEN b ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Dim == 15 + 6 * (s.cams + s.n - 1)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Tag(off) == TLCEval([i \in 1..Dim |-> [j \in 1..Dim |-> 200 * Min(i, j) + Max(i, j) + off]])
C == {"C01", "C02"}
CP(pol) == IF pol = "none" THEN {"C01"} ELSE {"C02"}

\* ---- structure of the covariance
StructBad(k, o) ==
    LET pol == o.policy
        sz == SizeAfter(s.cams, s.n, pol)
        new == 15 + sz - 6
        wrongSize == o.rows # sz \/ o.ccols # sz \/ \E i \in 1..Len(o.cols) : o.cols[i] # sz
    IN IF wrongSize THEN Bad(CP(pol) \cup If(k = 0, {"U04"}), <<"size of the covariance", o.rows, o.ccols, o.cols, sz>>)
       ELSE If(~o.sym, Bad({"C01"}, "inertial, cross and camera parts are not consistent"))
            \cup (IF k \notin {0, 3} \/ s.cov = <<>> THEN {}
                  ELSE LET e == After(s.cov, s.cams, s.n, pol)
                           diff == {<<i, j>> \in (1..(15 + sz)) \X (1..(15 + sz)) : o.M[i][j] # e[i][j]}
                       IN IF diff = {} THEN {}
                          ELSE Bad(CP(pol) \cup If(\E d \in diff : d[1] > new \/ d[2] > new, {"C01"}), <<"covariance entries", Cardinality(diff), CHOOSE d \in diff : TRUE>>))
Expected(pol) == IF s.n <= s.win THEN "none" ELSE IF s.key \/ s.n = 2 THEN "oldest" ELSE "subnew"   \* the oldest frame is a keyframe

\* ---- what the update did to the states
Near(x, y, tol) == Abs(x) < 2000000000 /\ Abs(y) < 2000000000 /\ Abs(x - y) <= tol
MoveBad(k, o) ==
    LET D == 1..Dim IN
    CASE k \in {0, 3} -> If(\E i \in D : ~Near(o.e1[i], o.e0[i], 3), Bad({IF k = 0 THEN "U04" ELSE "U01"}, "state changed without information"))
      [] k \in {2, 4} -> If(\E i \in D : ~Near(o.e1[i], o.e0[i], 100), Bad({"U02"}, <<"state changed by a perfect measurement", {i \in D : ~Near(o.e1[i], o.e0[i], 100)}>>))
      [] k = 1 ->
         If(\E i \in D : i \notin s.wrong /\ ~Near(o.e1[i], o.e0[i], 30), Bad({"U01"}, <<"certain state changed", {i \in D : i \notin s.wrong /\ ~Near(o.e1[i], o.e0[i], 30)}>>))
         \cup If(\E i \in s.wrong : ~Near(o.e1[i], 0, Abs(o.e0[i]) \div 10 + 100), Bad({"U01"}, <<"not corrected", s.wrong, [i \in s.wrong |-> <<o.e0[i], o.e1[i]>>]>>))
      [] OTHER -> {}
Cap(x) == IF Abs(x) > 300000000 THEN 300000000 ELSE x
PoseVar(d) == Cap(d[1]) + Cap(d[2]) + Cap(d[3]) + Cap(d[7]) + Cap(d[8]) + Cap(d[9])
\* variances of what is kept (k in 1, 2, 4)
VarBad(k, o) ==
    LET src == Source(15, 6, 3, 6, s.cams, s.n, o.policy)
        raised == {i \in 1..Len(src) : ~(o.d1[i] <= o.d0[src[i]] + o.d0[src[i]] \div 10000 + 5)}
    IN IF Len(o.d1) # Len(src) THEN Bad({"U02"}, "size")
       ELSE If(raised # {}, Bad({"U02"}, <<"variance raised", raised>>))
            \cup If(k = 1 /\ \E i \in 1..Len(src) : src[i] \in s.wrong /\ o.d1[i] > o.d0[src[i]] \div 5 + 5, Bad({"U01"}, "still as uncertain"))
            \cup If(k = 2 /\ PoseVar(o.d1) > PoseVar(o.d0) - PoseVar(o.d0) \div 100, Bad({"U02"}, "pose not more certain"))

\* ---- everybody who holds the corrected state
HoldBad(a, o) ==
    LET keep == {i \in 1..Len(o.t0) : o.t0[i] >= -1000 * a[2]}
        kt == SubSeq(o.t0, IF keep = {} THEN Len(o.t0) + 1 ELSE CHOOSE i \in keep : \A j \in keep : i <= j, Len(o.t0))
    IN If(~o.agree, Bad({"U03"}, "newest frame and current state differ"))
       \cup If(o.unit > 20, Bad({"U03"}, "orientation is not a unit quaternion"))
       \cup If(o.t1 # kt, Bad({"U03"}, "the corrected state is not the one at the image"))
       \cup If(Len(o.motion) # Len(o.fresh) \/ \E i \in 1..Len(o.motion) : \E j \in 1..10 : ~Near(o.motion[i][j], o.fresh[i][j], 3),
               Bad({"U03"}, "later states are not those integrated from the corrected one"))
\* ---- measurements against prior.  In a linear world the posterior covariance P1 and error e1 obey P1 = (P0^-1 + G)^-1 and
\* e1 = P1 P0^-1 e0, where the information G is inversely proportional to the square of the measurements' standard deviation
\* and adds up over the features.
Off(x, y, pct) == Abs(x - y) * 100 > pct * Max(Abs(x), Abs(y)) + 400
Sum(f, n) == LET r[i \in 0..n] == IF i = 0 THEN 0 ELSE r[i - 1] + f[i] IN r[n]
Fits(o) == LET n == Len(o.x0) IN n > 0 /\ Len(o.x1) = n
           /\ \A i \in 1..n : Abs(o.x0[i]) < 20000 /\ Abs(o.x1[i]) < 20000 /\ \A j \in 1..n : Abs(o.v0[i][j]) < 1000000 /\ Abs(o.v1[i][j]) < 1000000
Gain(o) == (Abs(o.v0[1][1] - o.v1[1][1]) * 1000) \div Max(o.v1[1][1], 1)       \* G in units of 1/P0, in permille
Judged(g) == g >= 50 /\ g <= 50000
Run(a, o) == [w |-> IF a[4] = 4 THEN a[3] ELSE 2 * a[3], mask |-> a[5], g |-> Gain(o)]
Clash(x, y) ==      \* two runs whose prior and noise differ only by factors
    LET r == x.w \div y.w IN
    IF x.mask # y.mask \/ x.w < y.w THEN FALSE
    ELSE \/ Judged(x.g) /\ Judged(y.g) /\ (IF r > 40 THEN TRUE ELSE Off(x.g * r * r, y.g, 4))
         \/ r >= 2 /\ y.g >= 20 /\ y.g <= 50000 /\ x.g > y.g
Adds(rs) == \A x \in rs, y \in rs, z \in rs :
                x.w = y.w /\ y.w = z.w /\ x.mask = 1 /\ y.mask = 2 /\ z.mask = 3 /\ Judged(x.g) /\ Judged(y.g) /\ Judged(z.g) => ~Off(x.g + y.g, z.g, 4)
Twice(rs) == \A x \in rs, y \in rs : x.w = y.w /\ x.mask = 3 /\ y.mask = 7 /\ Judged(x.g) /\ Judged(y.g) => ~Off(2 * x.g, y.g, 4)
\* the same scene three times as large, with the cameras in reverse, in a turned world, all of it
Same(rs) == \A x \in rs, y \in rs : x.w = y.w /\ x.mask = 3 /\ y.mask \in {11, 19, 35, 59} /\ Judged(x.g) /\ Judged(y.g) => ~Off(x.g, y.g, 4)
WeighBad(a, o) ==
    LET k == a[1] n == Len(o.x0) IN
    IF k \notin {5, 6} THEN {}
    ELSE IF ~Fits(o) THEN Bad({"U05"}, "variances or errors out of bounds")
    ELSE If(\E i \in 1..Dim : i \notin s.wrong /\ ~Near(o.e1[i], o.e0[i], 200), Bad({"U05"}, <<"certain state changed", {<<i, o.e1[i] - o.e0[i]>> : i \in {i \in 1..Dim : i \notin s.wrong /\ ~Near(o.e1[i], o.e0[i], 200)}}>>))
         \cup (IF k = 5 THEN
                 If(\E i \in 1..n : Abs(o.x1[i] - ((o.v1[1][1] \div 10) * o.x0[i]) \div Max(o.v0[1][1] \div 10, 1)) > 25 + Abs(o.x0[i]) \div 30,
                    Bad({"U05"}, <<"correction does not agree with the variance left", o.x0, o.x1, o.v0[1][1], o.v1[1][1]>>))
                 \cup (LET rs == s.runs \cup {Run(a, o)} IN
                    If(\E x \in s.runs : Clash(x, Run(a, o)) \/ Clash(Run(a, o), x), Bad({"U05"}, <<"weight of the measurements", rs>>))
                    \cup If(~Adds(rs), Bad({"U05"}, <<"the features' information does not add up", rs>>))
                    \cup If(~Same(rs), Bad({"U05"}, <<"the information depends on scale, order of cameras or direction of the world", rs>>))
                    \cup If(~Twice(rs), Bad({"U05"}, <<"seen twice is not twice the information", rs>>)))
                ELSE If(\E i \in 1..n : LET f == [j \in 1..n |-> ((o.v1[i][j] \div 10) * o.x0[j]) \div Max(o.v0[j][j] \div 10, 1)] IN
                            Abs(o.x1[i] - Sum(f, n)) > 50 + Abs(o.x0[i]) \div 20,
                        Bad({"U05"}, <<"correction does not agree with the covariance left", o.x0, o.x1, o.v0, o.v1>>))
                     \cup If(\E i \in 1..n : o.v1[i][i] > o.v0[i][i] + 200 \/ o.v1[i][i] < -200 - o.v0[i][i] \div 300, Bad({"U05"}, "variance raised or negative")))
UpdateBad(a, o) ==
    LET k == a[1] IN
    IF ~o.ret THEN Bad(CASE k = 0 -> {"U04", "C01", "C02"} [] k = 1 -> {"U01", "U03"} [] k \in {2, 4} -> {"U02", "U03"} [] k \in {5, 6} -> {"U05", "U03"} [] OTHER -> {"C01", "C02"}, "update failed")
    ELSE IF o.items = 0 THEN Bad({"U01", "U02", "U03", "U04", "U05"}, "no state left")
    ELSE IF o.policy # Expected(o.policy) THEN Bad({"C02"}, <<"policy", o.policy, Expected(o.policy)>>)
    ELSE If(Len(o.e1) # Dim \/ Len(o.e0) # Dim, Bad({"U01", "U02", "U04", "U05"}, "number of states"))
         \cup StructBad(k, o) \cup HoldBad(a, o)
         \cup (IF Len(o.e1) = Dim /\ Len(o.e0) = Dim THEN MoveBad(k, o) \cup WeighBad(a, o) ELSE {})
         \cup (IF k \in {1, 2, 4} THEN VarBad(k, o) ELSE {})
NextCov(k, o) == IF k \in {0, 3} /\ o.ret /\ s.cov # <<>> THEN After(s.cov, s.cams, s.n, Expected("")) ELSE <<>>

Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "cfg" -> s' = [s EXCEPT !.win = a[1], !.key = a[2] > 1000] /\ bad' = {}
         [] e.op = "again" -> s' = [S0 EXCEPT !.runs = s.runs] /\ bad' = {}
         [] e.op = "key" -> s' = [s EXCEPT !.key = (a[1] = 1)] /\ bad' = {}
         [] e.op = "ext" -> s' = [s EXCEPT !.cams = a[1]] /\ bad' = {}
         [] e.op = "image" -> s' = [s EXCEPT !.n = @ + 1] /\ bad' = {}
         [] e.op = "tag" -> s' = [s EXCEPT !.cov = Tag(a[1])] /\ bad' = {}
         [] e.op = "cov" -> s' = [s EXCEPT !.cov = <<>>] /\ bad' = {}
         [] e.op = "err" -> s' = [s EXCEPT !.wrong = {a[2 * i - 1] + 1 : i \in 1..(Len(a) \div 2)}] /\ bad' = {}
         [] e.op = "state" -> s' = [s EXCEPT !.wrong = {}] /\ bad' = If(o.cols # Dim - 15 \/ o.ex # Dim - 15, Bad(C, "covariance left by the last update"))
         [] e.op = "update" ->
              /\ s' = [s EXCEPT !.cov = NextCov(a[1], o), !.n = IF Expected("") = "none" THEN @ ELSE @ - 1,
                              !.runs = IF a[1] = 5 /\ o.ret /\ o.items > 0 /\ Len(o.e1) = Dim /\ Fits(o) THEN @ \cup {Run(a, o)} ELSE @]
              /\ bad' = UpdateBad(a, o)
         [] e.op = "crash" -> s' = s /\ bad' = Bad({"*"}, <<"crash or hang", o>>)
         [] OTHER -> s' = s /\ bad' = {}
Spec == Init /\ [][Next]_vars

For(ps) == \A b \in bad : b.p \notin ps
Conf_C01 == For({"C01", "*"})
Conf_C02 == For({"C02", "*"})
Conf_U01 == For({"U01", "*"})
Conf_U02 == For({"U02", "*"})
Conf_U03 == For({"U03", "*"})
Conf_U05 == For({"U05", "*"})
Conf_U04 == For({"U04", "*"})
=============================================================================
