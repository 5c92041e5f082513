-------------------------------- MODULE Quat --------------------------------
(* Exact quaternion, vector and small-matrix arithmetic on integers.        *)
(* Quaternions <<w,x,y,z>> are in half units: the 24 Hurwitz units          *)
(* (+-2,0,0,0) ... (+-1,+-1,+-1,+-1) form a non-commutative group on which  *)
(* products and rotation matrices are exact.                                *)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Zero3 == <<0, 0, 0>>
QId == <<2, 0, 0, 0>>
QRaw(a, b) == <<a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4],
                a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3],
                a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2],
                a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1]>>
QMul(a, b) == LET r == QRaw(a, b) IN [i \in 1..4 |-> r[i] \div 2]
QConj(a) == <<a[1], -a[2], -a[3], -a[4]>>
QNeg(a) == [i \in 1..4 |-> -a[i]]
QSame(a, b) == a = b \/ a = QNeg(b)          \* the same orientation
QNorm4(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3] + a[4] * a[4]   \* 4 for a unit
\* rotation matrix of a Hurwitz unit (integer entries); rows
Rot(q) == LET w == q[1]  x == q[2]  y == q[3]  z == q[4] IN
    << <<(w*w + x*x - y*y - z*z) \div 4, (2*(x*y - w*z)) \div 4, (2*(x*z + w*y)) \div 4>>,
       <<(2*(x*y + w*z)) \div 4, (w*w - x*x + y*y - z*z) \div 4, (2*(y*z - w*x)) \div 4>>,
       <<(2*(x*z - w*y)) \div 4, (2*(y*z + w*x)) \div 4, (w*w - x*x - y*y + z*z) \div 4>> >>
MV(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Turn(q, v) == MV(Rot(q), v)
\* the rotation by the vector th, defined where (1, th/2) normalised is a Hurwitz unit: th = 0 or every |th_i| = 2
DeltaOk(th) == th = Zero3 \/ \A i \in 1..3 : Abs(th[i]) = 2
Delta(th) == IF th = Zero3 THEN QId ELSE <<1, th[1] \div 2, th[2] \div 2, th[3] \div 2>>
Skew(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
MM(a, b) == LET col(j) == <<b[1][j], b[2][j], b[3][j]>> IN
            <<<<Dot(a[1], col(1)), Dot(a[1], col(2)), Dot(a[1], col(3))>>,
              <<Dot(a[2], col(1)), Dot(a[2], col(2)), Dot(a[2], col(3))>>,
              <<Dot(a[3], col(1)), Dot(a[3], col(2)), Dot(a[3], col(3))>>>>
Rows(m) == Len(m)
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Transpose(m) == TLCEval([j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> m[i][j]]])
ZeroM(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
Symmetric(m) == \A i \in 1..Len(m), j \in 1..Len(m) : m[i][j] = m[j][i]
=============================================================================
