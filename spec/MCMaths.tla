------------------------------- MODULE MCMaths ------------------------------
(* The laws the utilities obey, on the 24 exact unit quaternions, small     *)
(* vectors and small symmetric matrices.                                    *)
EXTENDS Maths
CONSTANTS R
VARIABLES p, q, u, v
vars == <<p, q, u, v>>
Half == {a \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : QNorm4(a) = 4}
Vec == (-R..R) \X (-R..R) \X (-R..R)
Init == p \in Half /\ q \in Half /\ u \in Vec /\ v \in {<<1, 2, 3>>, <<-2, 0, 1>>, <<0, 0, 0>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the product by matrix, from the left and from the right
Products == Four(QLeft(p), q) = QRaw(p, q) /\ Four(QRight(q), p) = QRaw(p, q)
Crosses == MV(Skew(u), v) = Cross(u, v) /\ \A i, j \in 1..3 : Skew(u)[i][j] = -Skew(u)[j][i]
\* poses form a group
Composes == MM4(Pose(p, u), Pose(q, v)) = Pose(QMul(p, q), Add(Turn(p, v), u))
Undone == MM4(Pose(p, u), Pose(QConj(p), Scale(-1, Turn(QConj(p), u)))) = Pose(QId, Zero3)
\* adjugate
Sym == <<<<u[1] * u[1] + v[1] * v[1] + 1, u[1] * u[2] + v[1] * v[2], u[1] * u[3] + v[1] * v[3]>>,
         <<u[1] * u[2] + v[1] * v[2], u[2] * u[2] + v[2] * v[2] + 1, u[2] * u[3] + v[2] * v[3]>>,
         <<u[1] * u[3] + v[1] * v[3], u[2] * u[3] + v[2] * v[3], u[3] * u[3] + v[3] * v[3] + 1>>>>
Inverts == Det(Sym) > 0 /\ MM(Sym, Adj(Sym)) = <<<<Det(Sym), 0, 0>>, <<0, Det(Sym), 0>>, <<0, 0, Det(Sym)>>>>
=============================================================================
