----------------------------- MODULE TraceMaths -----------------------------
(* Judges recorded results of the real utilities.                           *)
EXTENDS Maths, FiniteSets, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Init == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Bad(ps, what) == {[p |-> p, w |-> ToString(what)] : p \in ps}
If(c, b) == IF c THEN b ELSE {}
Four4(a, k) == <<a[k], a[k + 1], a[k + 2], a[k + 3]>>
Three(a, k) == <<a[k], a[k + 1], a[k + 2]>>
\* (the scale of the matrix, a[2], is taken out of the result again)
Square(a) == LET n == a[1] IN [i \in 1..n |-> [j \in 1..n |-> a[2 + (i - 1) * n + j]]]
Near(a, b, tol) == Abs(a - b) <= tol
Judge(e) ==
    LET a == e.a
        o == e.o
    IN CASE e.op = "skew" -> If(o.f # Skew(a) \/ o.d # Skew(a), Bad({"M01"}, <<"skew", o>>))
         [] e.op = "mul" -> LET r == <<QRaw(Four4(a, 1), Four4(a, 5))>> IN If(\E x \in {o.lf, o.rf, o.ld, o.rd} : x # r, Bad({"M01"}, <<"product", o, r>>))
         [] e.op = "trans" ->
              LET P == Pose(Four4(a, 1), Three(a, 5))
              IN If(o.a # P, Bad({"M01"}, <<"pose", o.a, P>>))
                 \cup If(o.ab # Pose(QMul(Four4(a, 1), Four4(a, 8)), Add(Turn(Four4(a, 1), Three(a, 12)), Three(a, 5))), Bad({"M01"}, <<"composition", o.ab>>))
         [] e.op = "delta" -> If(o.f # <<8, a[1], a[2], a[3]>> \/ o.d # o.f, Bad({"M01"}, <<"increment", o>>))
         [] e.op = "inv" ->
              LET n == a[1]
                  A == Square(a)
                  RECURSIVE Sum(_, _, _)
                  Sum(i, j, k) == IF k = 0 THEN 0 ELSE o.x[i][k] * A[k][j] + Sum(i, j, k - 1)
                  RECURSIVE Size(_, _)
                  Size(j, k) == IF k = 0 THEN 20 ELSE Abs(A[k][j]) + Size(j, k - 1)
                  wild == \E i \in 1..n, j \in 1..n : Abs(o.x[i][j]) > 20000
              IN IF wild THEN Bad({"M01"}, <<"inverse", o.x>>)
                 ELSE If(\E i \in 1..n, j \in 1..n : ~Near(Sum(i, j, n), IF i = j THEN 10000 ELSE 0, Size(j, n)), Bad({"M01"}, <<"inverse times matrix", o.x>>))
                      \cup (IF n > 3 THEN {} ELSE
                             LET d == Det(A)
                                 J == Adj(A)
                             IN If(\E i \in 1..n, j \in 1..n : ~Near(o.x[i][j] * d, 10000 * J[i][j], 3 * d), Bad({"M01"}, <<"inverse", o.x, J, d>>)))
         [] e.op = "euler" -> If(\E i \in 1..3 : ~Near(o.e[1][i], 1000 * a[i], 5), Bad({"M01"}, <<"angles", o.e, a>>))
         [] e.op = "size" -> LET flat == o.want < 100000 \/ o.want > 3041592 IN
              If(\E x \in {o.q, o.m} : ~Near(x, o.want, IF flat THEN 4000 ELSE 40), Bad({"M01"}, <<"size of a rotation", o>>))
              \* the vector stands for a rotation to first order only
              \cup If(o.want < 100000 /\ ~Near(o.v, o.want, 4000), Bad({"M01"}, <<"size of a rotation vector", o>>))
         [] e.op = "norm" -> If(\A k \in 0..60 : k * k # Dot(a, a) \/ ~Near(o.n, 1000 * k, 1), Bad({"M01"}, <<"length", o.n>>))
         [] e.op = "clock" -> If(o.low \/ o.high, Bad({"M01"}, <<"timer", o>>))
         [] e.op = "crash" -> Bad({"*"}, <<"crash or hang", o>>)
         [] OTHER -> {}
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ bad' = Judge(Traces[tr].ev[l + 1])
Spec == Init /\ [][Next]_vars
Conf_M01 == \A b \in bad : b.p \notin {"M01", "*"}
=============================================================================
